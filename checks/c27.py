"""C27: celestial and terrestrial frames, the Sun and the Moon"""
import datetime as dt
import numpy as np
from spk import kernel
from vlib import *

ARC = np.pi / 648000.0
J2000 = 51544.5
AU = 149597870.7
MAS = 1.0 / (ARC / 1000.0)


def cent(m):
    return (np.atleast_1d(np.asarray(m, dtype=float)) - J2000) / 36525.0


def mjd(s):
    return (dt.datetime.fromisoformat(s) - dt.datetime(1858, 11, 17)).total_seconds() / 86400.0


def sph(v):
    v = np.ravel(v); r = np.linalg.norm(v)
    return np.degrees(np.arctan2(v[1], v[0])), np.degrees(np.arcsin(v[2] / r)), r


def sepdeg(a, b):
    a = np.ravel(a) / np.linalg.norm(a); b = np.ravel(b) / np.linalg.norm(b)
    return np.degrees(np.arctan2(np.linalg.norm(np.cross(a, b)), a @ b))


def main(ctx):
    import pyTMD.astro as A
    import pyTMD.math as M
    import timescale.time, timescale.eop
    rng = ctx.rng
    cfg = "SPECIFICATION Spec\nINVARIANTS EndsDecide Typed Full Unit{}\nCHECK_DEADLOCK FALSE\nCONSTANTS MaxLen = {}\n Slip = {}\n"
    cases = ctx.model("SkyMC", cfg.format(" Emit", 9 if ctx.thorough else 7, "FALSE"))
    ctx.refute("SkyMC", cfg.format("", 5, "TRUE"), name="precession and nutation in either order")
    mcfg = ("SPECIFICATION Spec\nINVARIANTS Odd Mirror Bounded Apsides Rounded Emit\nCHECK_DEADLOCK FALSE\n"
            "CONSTANTS\n Steps = {%s}\n EmitOn = TRUE\n WrongSign = %s\n")
    theory = ctx.model("MoonMC", mcfg % ("1" if ctx.thorough else "3", "FALSE"), name="inequalities of the Moon")
    ctx.refute("MoonMC", mcfg % ("8", "TRUE"), name="anomalies of opposite sign")
    tab = [c for c in cases if c["kind"] == "tables"][0]
    walks = [c for c in cases if c["kind"] == "walk"]
    recs = []

    def add(rec, o=None):
        if o is not None and not o.ok:
            rec.update(status=o.err, msg=o.msg)
        else:
            rec.setdefault("status", "ok")
        recs.append(rec)
        return rec["status"] == "ok"

    def fn(x):
        return call(x)

    # --- the steps as functions of the date
    def step(s, T):
        ts = timescale.time.Timescale(MJD=T * 36525.0 + J2000)
        if s == "bias":
            return np.repeat(np.asarray(A._frame_bias_matrix()).reshape(3, 3, 1), len(T), axis=2)
        if s == "precession":
            return A._precession_matrix(ts.T)
        if s == "nutation":
            e = A.mean_obliquity(ts.tt - 2400000.5)
            p, d = A._nutation_angles(T)
            return A._nutation_matrix(e, e + d, p)
        if s == "spin":
            return M.rotate(2.0 * np.pi * A.gast(T), "z")
        if s == "polar":
            return A._polar_motion_matrix(ts.T)
        return A.itrs(T)

    # --- published numbers
    dut = float(np.ravel(timescale.time.Timescale(MJD=np.array([53736.0])).ut1)[0] - 2453736.5)
    pub = [("PB", lambda: A._precession_matrix(cent(50123.9999))[:, :, 0] @ A._frame_bias_matrix()),
           ("N", lambda: A._nutation_matrix(0.4090789763356509900, 0.4090789763356509900 + 0.4063239174001678826e-4, -0.9630909107115582393e-5)[:, :, 0]),
           ("W", lambda: A._polar_motion_matrix(cent(53736.0))[:, :, 0]),
           ("C2T", lambda: A.itrs(cent(53736.0 - dut))[:, :, 0])]
    for name, f in pub:
        o = fn(f)
        add(dict(kind="matrix", name=name, obs=[[q(x, 1e8) for x in row] for row in o.value] if o.ok else [], key=f"matrix:{name}"), o)
    d08 = fn(lambda: [float(np.ravel(x)[0]) for x in A.delaunay_arguments(np.array([J2000 + 0.8 * 36525]))])
    for k, name in enumerate(["l", "lp", "F", "D", "Om"]):
        add(dict(kind="angle", name=name, obs=q(d08.value[k], 1e8) if d08.ok else 0, key=f"angle:{name}"), d08)
    for name, f, s in [("obliquity", lambda: A.mean_obliquity(np.array([54388.0])), 1e9), ("dpsi", lambda: A._nutation_angles(cent(53736.0))[0], 1e11),
                       ("deps", lambda: A._nutation_angles(cent(53736.0))[1], 1e11), ("complement", lambda: A._eqeq_complement(cent(53736.0)), 1e12),
                       ("gast", lambda: 2 * np.pi * A.gast(cent(53736.0 - dut)), 1e8)]:
        o = fn(f)
        add(dict(kind="angle", name=name, obs=q(float(np.ravel(o.value)[0]), s) if o.ok else 0, key=f"angle:{name}"), o)

    # --- every step is a rotation, at every date of a vector
    nd = 40 if ctx.thorough else 12
    dates = np.sort(np.concatenate([rng.uniform(41700.0, 60000.0, nd), [J2000, 53736.0, 44239.0, 58849.5]]))
    T = cent(dates)
    mats = {}
    for s in ("bias", "precession", "nutation", "spin", "polar", "itrs"):
        o = fn(lambda: np.asarray(step(s, T)))
        if not o.ok or o.value.shape != (3, 3, len(T)):
            add(dict(kind="rot", key=f"rot:{s}", status=o.err if not o.ok else f"shape {o.value.shape}", msg=o.msg))
            continue
        mats[s] = o.value
        for i in (range(len(T)) if ctx.thorough else list(range(0, len(T), 3))):
            m = o.value[:, :, i]
            one = fn(lambda: np.asarray(step(s, T[i:i + 1]))[:, :, 0])
            ang = 0.0 if s in ("spin", "itrs") else np.sqrt(np.sum((m - m.T)**2) / 8.0) * MAS
            yrs = abs(dates[i] - J2000) / 365.25
            most = dict(bias=60, precession=yrs * 51000 + 100, nutation=21000, polar=1000).get(s, 0)
            add(dict(kind="rot", step=s, ortho=q(np.max(np.abs(m @ m.T - np.eye(3))), 1e9), tol=2, det=q(np.linalg.det(m), 1e6),
                     alone=q(np.max(np.abs(m - one.value)), 1e9) if one.ok else 0, angle=q(ang, 1), most=int(most), at=float(dates[i]),
                     key=f"rot:{s}:{dates[i]:.4f}"), one)

    # --- walks between the frames: what the ends decide
    if len(mats) == 6:
        for w in walks:
            for i in rng.choice(len(T), size=6 if ctx.thorough else 3, replace=False):
                m = np.eye(3)
                for s, d in w["walk"]:
                    x = mats[s][:, :, i]
                    m = (x if d == 1 else x.T) @ m
                want = {(1, 6): mats["itrs"][:, :, i], (6, 1): mats["itrs"][:, :, i].T}.get((w["start"], w["at"]), np.eye(3))
                add(dict(kind="walk", start=w["start"], at=w["at"], walk=w["walk"], resid=q(np.max(np.abs(m - want)), 1e9), date=float(dates[i]),
                         key=f"walk:{w['start']}>{w['at']}:{len(w['walk'])}:{dates[i]:.4f}"))

    # --- sidereal time
    for i, d in enumerate(dates):
        def g():
            ts = timescale.time.Timescale(MJD=np.array([d]))
            e = A.mean_obliquity(ts.tt - 2400000.5)
            p, de = A._nutation_angles(cent(d))
            c = A._eqeq_complement(cent(d))
            a, b = float(np.ravel(A.gast(cent(d)))[0]), float(np.ravel(A.gast(cent(d + 1.0)))[0])
            dd = (a - float(np.ravel(ts.st)[0]) + 0.5) % 1.0 - 0.5
            return dd * 1296e6, float(np.ravel(p * np.cos(e + de) + c)[0]) * MAS, a, ((b - a) % 1.0 + 1.0) * 365.2422
        o = fn(g)
        r = dict(kind="gast", key=f"gast:{d:.4f}", at=float(d))
        if o.ok:
            r.update(eqeq=q(o.value[0], 1), want=q(o.value[1], 1), turn=q(o.value[2], 1e6), rate=q(o.value[3], 1e3))
        add(r, o)

    # --- fundamental arguments as combinations of one another
    for d in dates:
        def f():
            args = [float(np.ravel(x)[0]) for x in np.degrees(A.doodson_arguments(np.array([d]), apply_correction=False))]
            args.append((d % 1.0) * 360.0)
            tq = float(np.degrees(np.ravel(A.doodson_arguments(np.array([d]), equinox=True, apply_correction=False)[0])[0]))
            return args, [float(np.ravel(x)[0]) for x in np.degrees(A.delaunay_arguments(np.array([d])))], tq
        o = fn(f)
        if not o.ok:
            add(dict(kind="fund", key=f"fund:{d:.4f}"), o)
            continue
        a, de, tq = o.value
        ai = [q(x, 1e4) for x in a]
        for name, x, tol in [*zip(["l", "lp", "F", "D", "Om"], de, [20] * 5), ("tau", a[0], 120), ("tau", tq, 120)]:
            add(dict(kind="fund", name=name, args=ai, obs=q(x, 1e4), tol=tol, key=f"fund:{name}:{d:.4f}"))

    for k in [*range(-250, 251, 25), *map(int, rng.integers(-500, 1000, size=20))]:
        t = np.array([51544.5 + 36.525 * k])
        for eq in (False, True):
            o = fn(lambda: [np.degrees(np.array([float(np.ravel(x)[0]) for x in A.doodson_arguments(t, equinox=eq, apply_correction=c)])) for c in (False, True)])
            r = dict(kind="drift", k=k, key=f"drift:{k}:{eq}")
            if o.ok:
                dd = (o.value[1] - o.value[0] + 180.0) % 360.0 - 180.0
                r.update(obs=q(dd[1] * 3600, 100), others=bool(np.all(np.abs(np.delete(dd, 1)) < 1e-6)))
            add(r, o)

    # --- where the Sun and the Moon are
    def sun(x):
        return np.array([np.ravel(v) for v in A.solar_ecef(np.atleast_1d(x))])

    def moon(x):
        return np.array([np.ravel(v) for v in A.lunar_ecef(np.atleast_1d(x))])
    allm = {c["at"]: mjd(c["at"]) for n in ("solar", "lunar", "seasons", "noon", "sunfar", "moonfar") for c in tab[n]}
    order = list(allm)
    rng.shuffle(order)
    allat = np.array([allm[k] for k in order])
    S, L = fn(lambda: sun(allat)), fn(lambda: moon(allat))
    for n in ("solar", "lunar"):
        for k, c in enumerate(tab[n]):
            j = order.index(c["at"])
            r = dict(kind=n, k=k + 1, key=f"{n}:{c['at']}", at=c["at"])
            if S.ok and L.ok:
                s, m = S.value[:, j], L.value[:, j]
                r["sep"] = q(sepdeg(s, m) if n == "solar" else 180.0 - sepdeg(s, m), 1000)
                r["ddec"] = q(sph(m)[1] - sph(s)[1], 1000)
            add(r, S if not S.ok else L)
    for n, what in (("seasons", "season"), ("noon", "noon"), ("sunfar", "far")):
        for k, c in enumerate(tab[n]):
            r = dict(kind="sun", what=what, k=k + 1, key=f"sun:{what}:{c['at']}", at=c["at"])
            o = fn(lambda: sph(sun(allm[c["at"]])))
            if o.ok:
                r.update(lon=q(o.value[0] % 360.0, 1000), dec=q(o.value[1], 1000), dist=q(o.value[2], 1e-6))
            add(r, o)
    for k, c in enumerate(tab["moonfar"]):
        o = fn(lambda: sph(moon(allm[c["at"]])))
        add(dict(kind="moon", what="far", k=k + 1, dist=q(o.value[2], 1e-3) if o.ok else 0, key=f"moon:far:{c['at']}"), o)
    for k, c in enumerate(tab["moondec"]):
        o = fn(lambda: moon(mjd(c["at"]) + np.arange(0, 29, 0.1)))
        r = dict(kind="moon", what="dec", k=k + 1, key=f"moon:dec:{c['at']}")
        if o.ok:
            la = np.degrees(np.arcsin(o.value[2] / np.linalg.norm(o.value, axis=0)))
            r.update(dec=q(la.max(), 1000), low=q(la.min(), 1000))
        add(r, o)
    for y in (47000.0, 51544.0, 57023.0):
        o = fn(lambda: np.linalg.norm(moon(y + np.arange(0, 412, 0.25)), axis=0) / 1e3)
        add(dict(kind="moon", what="range", k=1, least=q(o.value.min(), 1) if o.ok else 0, most=q(o.value.max(), 1) if o.ok else 0, key=f"moon:range:{y}"), o)

    # --- the theories of Moon and Sun, term by term: vectors turned back to the ecliptic
    th = theory[0]
    pol = {k: [float(x) for x in v] for k, v in th["polynomials"].items()}
    td = rng.uniform(33000.0, 68000.0, 300 if ctx.thorough else 60)
    from timescale.time import Timescale
    gha, T = np.radians(Timescale(MJD=td).gha), Timescale(MJD=td).T
    arg = {k: np.radians(sum(x * T**i for i, x in enumerate(v))) for k, v in pol.items()}
    eps0 = arg["e"]
    for what, f in (("moon", A.lunar_ecef), ("sun", A.solar_ecef)):
        o = fn(lambda: np.array([np.ravel(x) for x in f(td)]))
        if o.ok:
            x, y, z = o.value
            u, v = np.cos(gha) * x - np.sin(gha) * y, np.sin(gha) * x + np.cos(gha) * y
            v, z = v * np.cos(eps0) + z * np.sin(eps0), z * np.cos(eps0) - v * np.sin(eps0)
            rad = np.sqrt(u * u + v * v + z * z)
            lon, lat = np.arctan2(v, u), np.arcsin(z / rad)
        for i in range(len(td)):
            r = dict(kind="theory", what=what, key=f"theory:{what}:{td[i]:.4f}", at=float(td[i]))
            if o.ok:
                F4 = np.array([arg["l"][i], (arg["M"] if what == "moon" else arg["Ms"])[i], arg["s"][i] - arg["N"][i], arg["D"][i]])
                turn = lambda tab: [float(np.dot(w[:4], F4)) for w in tab]
                zero = arg["s"][i] if what == "moon" else arg["pp"][i] + F4[1]
                r.update(lon=q(np.mod(lon[i] - zero, 2 * np.pi) / ARC, 1), lat=q(lat[i] / ARC, 1), dist=q(rad[i] * (1e-3 if what == "moon" else 1e-6), 1))
                if what == "moon":
                    g = turn(th["latitude"])
                    g[0] += np.angle(np.exp(1j * (lon[i] - zero))) + sum(w[4] * np.sin(x) for w, x in zip(th["bend"], turn(th["bend"]))) * ARC
                    r.update(wl=[q(np.sin(x), 1e4) for x in turn(th["longitude"])], wb=[q(np.sin(x), 1e4) for x in g],
                             wr=[q(np.cos(x), 1e4) for x in turn(th["distance"])])
                else:
                    r.update(wl=[q(np.sin(x), 1e4) for x in turn(th["sunlongitude"])], wr=[q(np.cos(x), 1e4) for x in turn(th["sundistance"])])
            add(r, o)

    # --- ephemeris kernels: bodies that rest in the celestial frame
    eps = np.radians(23.4392911)
    seasons = [("2000-03-20T07:35", (1, 0, 0)), ("2000-06-21T01:48", (0, np.cos(eps), np.sin(eps))), ("2000-09-22T17:28", (-1, 0, 0)),
               ("2000-12-21T13:37", (0, -np.cos(eps), -np.sin(eps))), ("2020-03-20T03:50", (1, 0, 0))]
    runs = [("sun", at, np.array(v) * AU * 0.995, True) for at, v in seasons]
    for k in range(10 if ctx.thorough else 5):
        v = rng.normal(size=3); v /= np.linalg.norm(v)
        runs.append((["sun", "moon"][k % 2], None, v * (AU if k % 2 == 0 else 384400.0), False))
    for k, (body, at, v, near) in enumerate(runs):
        # the same place along another path: barycentres displaced
        e, b = rng.normal(size=3) * 4000.0, rng.normal(size=3) * 7e5 + (1.4e8 if k % 2 else 0.0)
        path = ctx.scratch / f"k{k}.bsp"
        kernel(path, {(0, 10): v + b + e, (0, 3): b, (3, 399): e, (3, 301): v + e})
        when = np.array([mjd(at)]) if at else np.sort(rng.uniform(42000.0, 59900.0, 5))
        f = A.solar_ecef if body == "sun" else A.lunar_ecef
        o = fn(lambda: np.array([np.ravel(x) for x in f(when, ephemerides="JPL", kernel=path)]))
        R = fn(lambda: A.itrs(cent(when)))
        for i in range(len(when)):
            r = dict(kind="eph", body=body, key=f"eph:{body}:{at or when[i]}", at=float(when[i]))
            if o.ok and R.ok:
                one = np.array([np.ravel(x)[0] for x in f(when[i:i + 1], ephemerides="JPL", kernel=str(path))])
                w = R.value[:, :, i] @ v
                x = o.value[:, i] / 1e3
                r.update(resid=q(sepdeg(w, x) * 3.6e6, 1), ddist=q(abs(np.linalg.norm(x) / np.linalg.norm(v) - 1.0), 1e9),
                         approx=q(sepdeg(f(when[i:i + 1]), x), 1000) if near else 0, alone=q(np.linalg.norm(one / 1e3 - x) / np.linalg.norm(x), 1e9))
            add(r, o if not o.ok else R)

    # a corrupted copy of every kind
    def bad(kind, _if={}, **kw):
        r = [x for x in recs if x["kind"] == kind and x["status"] == "ok" and all(x.get(a) == b for a, b in _if.items())]
        return [dict(r[0], **kw)] if r else []
    can = bad("rot", ortho=9) + bad("walk", resid=90) + bad("solar", sep=2000) + bad("lunar", sep=2000) + bad("eph", resid=999) + bad("fund", obs=0, tol=0) + bad("drift", obs=99) + bad("drift", others=False)
    can += bad("theory", lon=999, _if=dict(what="moon")) + bad("theory", lat=9, _if=dict(what="sun"))
    can += bad("gast", rate=365242) + bad("angle", obs=0) + bad("sun", dec=1, _if=dict(what="season"))
    ctx.validate("SkyTrace", recs, canaries=can)
    ctx.assumptions.append("published values: SOFA test values, eclipse and almanac tables entered in Sky.tla; sidereal time, leap seconds and Earth orientation series of the timescale package")
