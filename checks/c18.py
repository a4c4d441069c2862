"""C18: coordinate frames"""
import itertools
import numpy as np
from vlib import *

A0, B0 = 6400000, 6380000
FLAT = 1.0 - B0 / A0
# metres at zero height on WGS84 (parametric-latitude form): latitude -> (p, z) in cm
TABLE = {0: (637813700, 0), 15: (616218909, 164010014), 30: (552825664, 317037374), 45: (451759088, 448734841),
         60: (319710459, 550047713), 75: (165596295, 613876568), 89: (11168819, 635577763), 90: (0, 635675231)}


def step(S, s, v, o, ell):
    """one conversion on a tuple of three scalars/arrays"""
    kw = dict(a_axis=ell[0], flat=ell[1])
    op = s["op"]
    if op == "to_cartesian":
        return call(S.to_cartesian, v[0], v[1], h=v[2], **kw)
    if op == "to_geodetic":
        return call(S.to_geodetic, v[0], v[1], v[2], method=s["method"], **kw)
    if op == "to_sphere":
        return call(S.to_sphere, v[0], v[1], v[2])
    if op == "from_sphere":
        # a position at radius r is a point of the sphere of that radius
        return call(S.to_cartesian, v[0], v[1], a_axis=v[2], flat=0.0)
    lon0, lat0, h0 = s["o"]
    if op == "to_ENU":
        return call(S.to_ENU, v[0], v[1], v[2], lon0=lon0, lat0=lat0, h0=h0, **kw)
    return call(S.from_ENU, v[0], v[1], v[2], lon0=lon0, lat0=lat0, h0=h0, **kw)


FR = dict(to_cartesian="geod", to_geodetic="cart", to_sphere="cart", from_sphere="sphere", to_ENU="cart", from_ENU="enu")
TO = dict(to_cartesian="cart", to_geodetic="geod", to_sphere="sphere", from_sphere="cart", to_ENU="enu", from_ENU="cart")


def sc(frame):
    return (1e6, 1e6, 10) if frame in ("geod", "sphere") else (10, 10, 10)


def cart(g, ell):
    a, f = ell
    e2 = 2 * f - f * f
    la, lo = np.radians(g[1]), np.radians(g[0])
    N = a / np.sqrt(1 - e2 * np.sin(la)**2)
    return np.array([(N + g[2]) * np.cos(la) * np.cos(lo), (N + g[2]) * np.cos(la) * np.sin(lo), (N * (1 - e2) + g[2]) * np.sin(la)])


def run_path(S, path, v, ell):
    """list of observed tuples or the failing outcome"""
    out = []
    same = True
    for s in path:
        snap = [np.array(x, copy=True) for x in v]
        o = step(S, s, v, None, ell)
        same &= all(np.array_equal(a, np.array(b), equal_nan=True) for a, b in zip(snap, v))
        if not o.ok:
            return o, out, same
        v = o.value
        out.append(v)
    return None, out, same


def walks(ctx, S, paths, recs):
    rng = ctx.rng
    lattice = [(lo, la, h) for lo in (-90, 0, 90, 180, 270) for la in (-90, 0, 90) for h in (0, 1234, -400)]
    special = [(0.0, 0.0), (180.0, 0.0), (-180.0, 12.0), (359.999, -0.001), (45.0, 45.0), (-135.0, -45.0), (10.0, 89.9999999),
               (10.0, -89.9999999), (200.0, 1e-9), (-0.0, -0.0), (77.0, 90.0), (-77.0, -90.0), (300.0, 66.5), (13.0, -78.0)]
    special += [(20.0, t * (45.28898 + d)) for t in (1, -1) for d in (0.0, 3e-5, 6e-5, -3e-5)]
    for n, p in enumerate(paths):
        path = [dict(s) for s in p["path"]]
        # a path that ends in the geodetic frame closes; complete the others
        # each record carries all its steps
        last = TO[path[-1]["op"]]
        m = ["moritz", "bowring", "zhu"][n % 3]
        O0 = [0, 0, 0]
        if last == "enu":
            path.append(dict(op="from_ENU", method="", o=path[-1]["o"]))
        elif last == "sphere":
            path.append(dict(op="from_sphere", method="", o=O0))
        if TO[path[-1]["op"]] == "cart":
            path.append(dict(op="to_geodetic", method=m, o=O0))
        nd_ok = not any(s["op"].endswith("ENU") for s in path)
        for exact in ((True, False) if p["start"] == "geod" else (True,)):
            if exact:
                ell = (float(A0), FLAT)
                sel = [lattice[k] for k in rng.choice(len(lattice), size=6, replace=False)]
            else:
                ell = [(6378137.0, 1 / 298.257223563), (6378136.3, 1 / 298.257), (6378206.4, 1 / 294.9786982)][n % 3]
                sel = []
                for k in range(6):
                    if rng.random() < 0.5:
                        lo, la = special[rng.integers(len(special))]
                    else:
                        lo, la = rng.uniform(-180, 360), rng.uniform(-90, 90)
                    sel.append((lo, la, float(rng.choice([0.0, 8848.0, -11034.0, 250.5, 500000.0]))))
                # the origin of a local frame is arbitrary off the lattice
                oo = [float(rng.uniform(-180, 360)), float(rng.choice([-90, -60, 0, 45.5, 90])), float(rng.choice([0, 1500.0]))]
                path = [dict(s, o=oo) if s["op"].endswith("ENU") else s for s in path]
            sel0 = sel
            if p["start"] == "cart":
                # exact Cartesian coordinates: the poles have x = y = 0
                sel0 = [tuple(float(round(x)) + 0.0 for x in cart(g, ell)) for g in sel]
            arr = [np.array(c, dtype=float) for c in zip(*sel0)]
            form = ["1d", "2d", "1d"][n % 3] if nd_ok else "1d"
            if form == "2d":
                arr = [c.reshape(2, 3) for c in arr]
            bad, out, same = run_path(S, path, arr, ell)
            for k, g in enumerate(sel):
                # the same point alone, as scalars
                b1, o1, s1 = run_path(S, path, [float(x) for x in sel0[k]], ell)
                rec = dict(kind="walk", exact=exact, start=p["start"], pos=list(map(int, g)) if exact else [0, 0, 0], path=[dict(s, o=[int(x) for x in s["o"]]) for s in path] if exact else [],
                           obs=[], closed=True, dlat=0, dlon=0, dh=0, dist=0, pole=bool(abs(g[1]) == 90.0), tolh=2000, told=2000, tolt=20, alone=True,
                           unchanged=bool(same and s1), status="ok", at=list(map(float, g)), ellipsoid=list(ell))
                rec["key"] = f"walk:{p['start']}:{'>'.join(s['op'] + s['method'] for s in path)}:{g}"
                if bad is not None or b1 is not None:
                    b = bad or b1
                    rec["status"] = b.err; rec["msg"] = b.msg
                else:
                    fl = [[np.ravel(c)[k] for c in o] for o in out]
                    okshape = all(np.shape(c) == np.shape(arr[0]) for o in out for c in o)
                    if exact:
                        rec["obs"] = [[q(x, s_) for x, s_ in zip(o, sc(TO[s["op"]]))] for o, s in zip(fl, path)]
                    e = fl[-1]
                    # longitudes as arcs on their parallel
                    rec["dlon"] = q((((e[0] - g[0] + 180.0) % 360.0) - 180.0) * np.cos(np.radians(g[1])), 1e9)
                    rec["dlat"] = q(e[1] - g[1], 1e9); rec["dh"] = q(e[2] - g[2], 1e6)
                    rec["dist"] = q(np.sqrt(np.sum((cart(e, ell) - cart(g, ell))**2)), 1e6)
                    # arc cosine of a number near one: a decimetre at most
                    near = abs(g[1]) > 89.99 and any(s["op"] == "to_sphere" for s in path)
                    # the closed form loses digits where its branches meet
                    zhu = any(s["method"] == "zhu" for s in path)
                    soft = zhu and abs(abs(g[1]) - 45.289) < 0.5
                    near = near or (zhu and abs(abs(g[1]) - 45.289) < 0.02)
                    rec["told"] = 200000 if near else 2000
                    rec["tolt"] = 2000 if near else 20
                    rec["tolh"] = 200000 if near else 2000
                    atol = 0.2 if near else 1e-3 if soft else 1e-6
                    al = True
                    for n_, (o, single) in enumerate(zip(fl, o1)):
                        for c, (x, y) in enumerate(zip(o, single)):
                            df = abs(x - y)
                            if c == 0 and TO[path[n_]['op']] in ("geod", "sphere"):
                                df = abs((df + 180.0) % 360.0 - 180.0) * np.cos(np.radians(g[1]))
                            al &= bool(np.isfinite(x) and np.ndim(y) == 0 and df <= atol)
                    rec["alone"] = al and okshape
                recs.append(rec)


def main(ctx):
    import pyTMD.spatial as S
    cfg = ("SPECIFICATION Spec\nINVARIANTS SamePoint Emit\nCHECK_DEADLOCK FALSE\n"
           f"CONSTANTS\n A = {A0}\n B = {B0}\n MaxLen = %d\n")
    paths = ctx.model("FramesMC", cfg % (6 if ctx.thorough else 4) + "INVARIANT Orthonormal\nINVARIANT UpIsUp\n", workers=1)
    paths = [json.loads(s) for s in {json.dumps(p, sort_keys=True) for p in paths}]
    paths.sort(key=lambda p: json.dumps(p))
    n4 = len(paths)
    nmax = 1500 if ctx.thorough else 240
    idx = ctx.rng.choice(n4, size=min(n4, nmax), replace=False)
    paths = [paths[i] for i in sorted(idx)]
    recs = []
    walks(ctx, S, paths, recs)
    # local horizon
    vec = [e for e in itertools.product((-2, -1, 0, 1, 2), repeat=3) if e != (0, 0, 0)]
    for scale in (1.0, 1000.0):
        E, N, U = [np.array(c, dtype=float) * scale for c in zip(*vec)]
        o = call(S.to_horizontal, E, N, U)
        # the zenith angle of the same vector seen from some origin
        org = (33.0, -12.0, 100.0)
        oc = call(S.from_ENU, E, N, U, *org)
        z = call(S.to_zenith, *oc.value, *org) if oc.ok else oc
        for k, e in enumerate(vec):
            one = call(S.to_horizontal, E[k], N[k], U[k])
            r = dict(kind="horizon", e=list(e), status="ok", key=f"horizon:{e}:{scale}")
            if o.ok and z.ok and one.ok:
                r.update(az=q(o.value[0 + 1][k], 1e6), el=q(o.value[0][k], 1e6), zen=q(z.value[k], 1e6), d2=q((one.value[2] / scale)**2, 1000))
            else:
                r["status"] = (o.err or z.err or one.err)
            recs.append(r)
    # degrees minutes seconds: angles that are whole arc seconds
    nums = sorted({0, 1, 59, 60, 61, 1800, 3599, 3600, 3601, 5399, 36360, 647999, 648000, 1295999} | set(map(int, ctx.rng.integers(0, 1296000, 60))))
    nums = nums + [-x for x in nums if x]
    d = np.array(nums) / 3600.0
    o = call(S.to_dms, d)
    b = call(S.from_dms, *o.value) if o.ok else o
    for k, nn in enumerate(nums):
        one = call(S.to_dms, d[k])
        bo = call(S.from_dms, *one.value) if one.ok else one
        for w, (oo, bb) in dict(array=(o, b), scalar=(one, bo)).items():
            r = dict(kind="dms", num=nn, status="ok", key=f"dms:{w}:{nn}")
            if oo.ok and bb.ok:
                D, M, Sx = [np.atleast_1d(c)[k if w == "array" else 0] for c in oo.value]
                r.update(d=q(D), m=q(M, 10000), s=q(Sx, 10000), neg=bool(np.signbit(D)), back=q(np.atleast_1d(bb.value)[k if w == "array" else 0] - d[k], 1e12))
            else:
                r["status"] = oo.err or bb.err
            recs.append(r)
    for neg, dd, mm, ss in [(0, 0, 30, 0), (1, 0, 30, 0), (0, 0, 0, 1), (1, 0, 0, 1), (1, 12, 30, 15), (0, 359, 59, 59), (1, 1, 0, 0), (0, 45, 0, 30)]:
        deg = -float(dd) if neg else float(dd)
        for form in (float, lambda x: np.array([x])):
            o = call(S.from_dms, form(deg), form(float(mm)), form(float(ss)))
            r = dict(kind="fromdms", neg=bool(neg), d=dd, m=mm, s=ss, status="ok" if o.ok else o.err, key=f"fromdms:{neg}:{dd}:{mm}:{ss}")
            r["val"] = q(np.atleast_1d(o.value)[0] * 3600) if o.ok else BIG
            recs.append(r)
    # wrapping (longitudes in millidegrees)
    ml = [0, 1, -1, 90000, 179999, 180000, 180001, 270000, 359999, 360000, 540000, -180000, -180001, -359999, 725000, -900000] + list(map(int, ctx.rng.integers(-720000, 720000, 40)))
    o = call(S.wrap_longitudes, np.array(ml) / 1000.0)
    for k, m in enumerate(ml):
        one = call(S.wrap_longitudes, m / 1000.0)
        for nm, oo, val in (("array", o, lambda: o.value[k]), ("scalar", one, lambda: one.value)):
            recs.append(dict(kind="wrap", lon=m, status="ok" if oo.ok else oo.err, w=q(val(), 1e6) if oo.ok else BIG, key=f"wrap:{nm}:{m}"))
    # ellipsoid to ellipsoid
    ells = {"WGS84": (6378137.0, 1 / 298.257223563), "TOPEX": (6378136.3, 1 / 298.257), "CLK66": (6378206.4, 1 / 294.9786982), "SPHERE": (6371000.0, 1e-9)}
    lats = np.array([0.0, -90.0, 90.0, 45.0, -45.0, 45.0000001, 1e-6, -30.0, 60.0, 89.9999, -89.9999, 12.5, 1e-13])
    hs = np.array([0.0, 0.0, 10.0, 8000.0, -400.0, 5.0, 100.0, 3.0, 2.0, -50.0, 0.0, 1000.0, 7.0])
    for n1, n2 in [("WGS84", "TOPEX"), ("TOPEX", "WGS84"), ("WGS84", "CLK66"), ("TOPEX", "TOPEX"), ("SPHERE", "WGS84")]:
        e1, e2 = ells[n1], ells[n2]
        perm = ctx.rng.permutation(len(lats))
        la, hh = lats[perm].copy(), hs[perm].copy()
        s0, s1 = la.copy(), hh.copy()
        o = call(S.convert_ellipsoid, la, hh, *e1, *e2)
        same = np.array_equal(la, s0) and np.array_equal(hh, s1)
        # beyond the pole is clipped, and not in the caller's array
        ov = np.array([90.0000001, -90.0000001, 5.0]); ov0 = ov.copy()
        call(S.convert_ellipsoid, ov, np.zeros(3), *e1, *e2)
        same = same and np.array_equal(ov, ov0)
        bk = call(S.convert_ellipsoid, o.value[0].copy(), o.value[1].copy(), *e2, *e1) if o.ok else o
        c = call(S.to_cartesian, np.zeros(len(la)), la, h=hh, a_axis=e1[0], flat=e1[1])
        g = call(S.to_geodetic, *c.value, a_axis=e2[0], flat=e2[1]) if c.ok else c
        zero = call(S.convert_ellipsoid, la.copy(), np.zeros(len(la)), *e1, *e2)
        dh = call(S.compute_delta_h, la, *e1, *e2)
        for k in range(len(la)):
            r = dict(kind="ellipsoid", status="ok", unchanged=bool(same), lat=q(la[k]) if float(la[k]).is_integer() else 1, at=[float(la[k]), float(hh[k])],
                     key=f"ellipsoid:{n1}>{n2}:{la[k]}")
            # differences of the axes in 0.1 mm
            r["da"] = q(e1[0] - e2[0], 1e4); r["db"] = q(e1[0] * (1 - e1[1]) - e2[0] * (1 - e2[1]), 1e4)
            if o.ok and bk.ok and g.ok and dh.ok and zero.ok:
                r.update(dlat=q(o.value[0][k] - g.value[1][k], 1e9), dh=q(o.value[1][k] - g.value[2][k], 1e6),
                         blat=q(bk.value[0][k] - la[k], 1e9), bh=q(bk.value[1][k] - hh[k], 1e6),
                         shift=q(zero.value[1][k], 1e4), delta=q(dh.value[k], 1e4))
                if "CLK66" in (n1, n2) or "SPHERE" in (n1, n2):
                    r["delta"] = r["shift"]      # the linearised shift is only meant for nearby ellipsoids
            else:
                r["status"] = o.err or bk.err or g.err or dh.err or zero.err
            recs.append(r)
    # polar stereographic scale
    for ref in (70, 71, 90 - 30):
        la = np.array([0, 30, 60, 70, 71, 75, 80, 85, 89, 90, -60, -70, -71, -90, -89], dtype=float)
        ds = call(S.scale_factors, la, reference_latitude=float(ref), metric="distance")
        ar = call(S.scale_factors, la, reference_latitude=float(ref), metric="area")
        mi = call(S.scale_factors, -la, reference_latitude=float(ref), metric="distance")
        up = call(S.scale_factors, np.minimum(np.abs(la) + 0.5, 90.0), reference_latitude=-float(ref), metric="distance")
        for k in range(len(la)):
            one = call(S.scale_factors, la[k], reference_latitude=float(ref), metric="distance")
            r = dict(kind="scale", lat=int(la[k]), ref=ref, status="ok", key=f"scale:{ref}:{la[k]}")
            if ds.ok and ar.ok and mi.ok and up.ok and one.ok:
                r.update(dist=q(ds.value[k], 1e6), area=q(ar.value[k], 1e6), sq=q(ds.value[k]**2, 1e6), mirror=q(mi.value[k], 1e6), poleward=q(up.value[k], 1e6),
                         alone=bool(abs(float(one.value) - ds.value[k]) < 1e-9))
            else:
                r["status"] = ds.err or ar.err or mi.err or up.err or one.err
            recs.append(r)
    # tabulated positions
    for la, (pm, zm) in TABLE.items():
        for sgn in (1, -1):
            for lo in (0.0, 123.0, -77.0, 289.0):
                for default in (True, False):
                    kw = {} if default else dict(a_axis=6378137.0, flat=1 / 298.257223563)
                    o = call(S.to_cartesian, np.array([lo]), np.array([float(sgn * la)]), **kw)
                    r = dict(kind="table", pm=pm, zm=sgn * zm, status="ok" if o.ok else o.err, key=f"table:{sgn * la}:{lo}")
                    if o.ok:
                        X, Y, Z = [float(c[0]) for c in o.value]
                        r.update(p=q(X * np.cos(np.radians(lo)) + Y * np.sin(np.radians(lo)), 100), z=q(Z, 100))
                    recs.append(r)
    can = []
    for r in [r for r in recs if r["status"] == "ok" and r["kind"] == "walk" and r["exact"]][:3]:
        c = json.loads(json.dumps(jsonable(r))); c["obs"][1][2] += 300; can.append(c)
    for k in ("horizon", "dms", "wrap", "scale"):
        r = next(x for x in recs if x["kind"] == k and x["status"] == "ok")
        c = json.loads(json.dumps(jsonable(r))); f = dict(horizon="zen", dms="back", wrap="w", scale="area")[k]; c[f] += 5000; can.append(c)
    cfgT = f"SPECIFICATION TraceSpec\nPOSTCONDITION Consumed\nCHECK_DEADLOCK FALSE\nCONSTANTS\n A = {A0}\n B = {B0}\n"
    ctx.validate("FramesTrace", recs, cfg=cfgT, canaries=can)
    ctx.notes["paths_enumerated"] = n4
    ctx.notes["paths_replayed"] = len(paths)
