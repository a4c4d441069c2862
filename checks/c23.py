"""C23: domain checks against the validity of predictions"""
import json
import numpy as np
import models as M, mgen
from vlib import *

CFG = "SPECIFICATION Spec\nINVARIANT Agrees\nCHECK_DEADLOCK FALSE\nCONSTANTS\n Design = \"%s\"\n Own = %s\n"
EPSGS = [4326, "4326", "EPSG:4326", 3031, "EPSG:3031", 3413, "+proj=longlat +datum=WGS84 +no_defs", "+proj=merc +datum=WGS84", "+proj=laea +lat_0=20 +lon_0=100 +datum=WGS84"]


def project(epsg, lon, lat):
    import pyproj
    c = pyproj.CRS.from_user_input(int(epsg) if isinstance(epsg, str) and epsg.isdigit() else epsg)
    if c.is_geographic:
        return lon, lat
    return pyproj.Transformer.from_crs(4326, c, always_xy=True).transform(lon, lat)


def main(ctx):
    import pyTMD, warnings
    rng = ctx.rng
    for own in ("FALSE", "TRUE"):
        ctx.model("DomainMC", CFG % ("sound", own), name=f"every mask (own masks: {own})", workers=4)
    ctx.refute("DomainMC", CFG % ("floor", "FALSE"), name="floor of the land fraction for every method")
    ctx.refute("DomainMC", CFG % ("first constituent", "TRUE"), name="mask of the first constituent")
    ctx.refute("DomainMC", CFG % ("fill is wet", "FALSE"), name="outside counts as wet")
    W = mgen.World(ctx)
    methods = ["spline", "bilinear", "linear", "nearest"]
    for rep in range(8 if ctx.thorough else 1):
        for kind in ("z", "uv"):
            for fmt in (M.FORMATS_Z if kind == "z" else M.FORMATS_UV):
                lays = [l for l in mgen.LAYOUTS if mgen.allowed(fmt, l)]
                for lay in (lays if ctx.thorough else [str(x) for x in rng.choice(lays, size=4, replace=False)]):
                    gz = rep % 2 == 1
                    w = W.build(rng, fmt, kind, lay, cons=("m2", "k1"), gz=gz, landp=float(rng.choice([0.1, 0.3, 0.6])), H=5)
                    ds = w["ds"]
                    f = w["dir"] / "definition.json"
                    d = dict(w["definition"]); d["compressed"] = w["gz"]
                    f.write_text(json.dumps(d))
                    t0 = "z"
                    for meth in methods:
                        one(ctx, W, w, f, ds, meth, rng, pyTMD, f"{fmt}|{kind}|{lay}|{meth}")
    can = []
    dom = [r for r in W.recs if r["kind"] == "domain" and r["status"] == "ok" and r["meth"] != "nearest"]
    for k in range(8):
        r = json.loads(json.dumps(jsonable(dom[int(rng.integers(len(dom)))])))
        i = int(rng.integers(len(r["pts"])))
        if k % 4 == 3:
            r["shapeok"] = False
        else:
            r["pts"][i]["v"] = not r["pts"][i]["v"]
        can.append(r)
    W.validate(can)
    ctx.assumptions += ["points in user projections lie off the lattice lines (rounding of the projection decides nothing)"]


def one(ctx, W, w, f, ds, meth, rng, pyTMD, key):
    geo = ds.proj == "EPSG:4326"
    epsg = EPSGS[int(rng.integers(len(EPSGS)))] if rng.random() < 0.6 else 4326
    exact = geo and str(epsg).replace("EPSG:", "") == "4326" or (geo and "longlat" in str(epsg))
    n = int(rng.choice([1, 6, 12]))
    pts = W.points(rng, w, n, margin=int(rng.choice([0, 4])))
    if not exact:
        pts = [(x // 2 * 2 + 1, y // 2 * 2 + 1) for x, y in pts]
        if geo:
            ll = M.lonlat(ds, "z", pts, 0)
            ok = [abs(b) < 84 and (epsg not in (3031, "EPSG:3031") or b < 60) and (epsg != 3413 or b > -60) for b in ll[1]]
            pts = [p for p, o in zip(pts, ok) if o] or [(5, 9)]
            n = len(pts)
    shift = W.turns(rng, w, "z", pts) if exact else 0
    lon, lat = M.lonlat(ds, "z", pts, shift)
    x, y = project(epsg, lon, lat)
    x = np.array(x, float); y = np.array(y, float)
    shape = [(n,), (n, 1), (1, n), (2, n // 2) if n % 2 == 0 else (n,), (3, n // 3) if n % 3 == 0 else (n,)][int(rng.integers(5))]
    scalar = n == 1 and rng.random() < 0.6
    X, Y = (float(x[0]), float(y[0])) if scalar else (x.reshape(shape), y.reshape(shape))
    want = () if scalar else shape
    one_by_one = rng.random() < 0.25 and not scalar
    import warnings
    fn = [pyTMD.compute.tide_masks, pyTMD.check_points][int(rng.random() < 0.2)]
    args = dict(DEFINITION_FILE=f, EPSG=epsg, METHOD=meth)
    parts = [w["mods"]["z"]] if w["kind"] == "z" else [w["mods"]["u"], w["mods"]["v"]]
    for way in ("all", "each"):
        if way == "each" and not one_by_one:
            continue
        if way == "all":
            o = call(fn, X, Y, **args)
        else:
            o = call(lambda: np.array([np.ravel(fn(x[i:i + 1], y[i:i + 1], **args))[0] for i in range(n)]).reshape(shape))
        r = dict(kind="domain", mod=parts[0], parts=parts, meth=meth, status="ok" if o.ok else o.err, msg=o.msg, shapeok=True, pts=[], key=f"{key}|{epsg}|{way}|{want}")
        W.recs.append(r)
        if o.ok:
            v = np.asarray(o.value)
            r["shapeok"] = v.shape == want and v.dtype == bool
            v = np.ravel(v)
            if v.size == n:
                uv = lambda p: [[int(p[0]), int(p[1])]] if w["kind"] == "z" else [qoff(ds, "u", p), qoff(ds, "v", p)]
                r["pts"] = [dict(q=uv(p), v=bool(v[i])) for i, p in enumerate(pts)]


def qoff(ds, t, p):
    """lattice position of a point of the z lattice in the lattice of another variable"""
    oz, ot = ds.origin("z"), ds.origin(t)
    return [int(round(p[0] + (oz[0] - ot[0]) / ds.dx * 4)), int(round(p[1] + (oz[1] - ot[1]) / ds.dy * 4))]
