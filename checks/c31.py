"""C31: the tide of the solid earth and the equilibrium tide are the published sums, term by term"""
import numpy as np
from vlib import *

CFG = ("SPECIFICATION Spec\nINVARIANTS TurnSums HalfTurn Mirrored Opposite Overhead Gradient\nCHECK_DEADLOCK FALSE\n"
       "CONSTANTS\n Lats = {%s}\n Decs = {%s}\n EmitOn = %s\n")
RE, MS, ML = 6378136.6, 332946.0482, 0.0123000371
ZERO = dict(h2=0.0, l2=0.0, h3=0.0, l3=0.0)
NOMASS = dict(mass_ratio_solar=0.0, mass_ratio_lunar=0.0)
NOMINAL = dict(h2=0.6078, l2=0.0847, h3=0.292, l3=0.015, mass_ratio_solar=MS, mass_ratio_lunar=ML)


def local(x):
    """unit vectors up, north and east at a station"""
    r = np.linalg.norm(x)
    la = np.arctan2(x[1], x[0])
    sp, cp = x[2] / r, np.hypot(x[0], x[1]) / r
    return (np.array([cp * np.cos(la), cp * np.sin(la), sp]), np.array([-sp * np.cos(la), -sp * np.sin(la), cp]),
            np.array([-np.sin(la), np.cos(la), 0.0]), la, sp, cp)


def geometry(x, b):
    up, no, ea, la, sp, cp = local(x)
    d = b / np.linalg.norm(b)
    t = lambda v: q(v, 1e4)
    return dict(sp=t(sp), cp=t(cp), bz=t(d[2]), u=t(d[0] * np.cos(la) + d[1] * np.sin(la)), v=t(d[0] * np.sin(la) - d[1] * np.cos(la)),
                br=t(d @ up), bn=t(d @ no), be=t(d @ ea))


def main(ctx):
    import pyTMD.predict as P
    import pyTMD.astro as astro
    full = ", ".join(map(str, range(0, 13)))
    ctx.model("SolidMC", CFG % (full, "2, 4, 6, 7, 9" if not ctx.thorough else full, "FALSE"), name="a turn of the sky")
    cases = ctx.model("SolidMC", CFG % ("1, 2, 4, 6, 7, 9, 11", "3, 6, 8", "TRUE"), name="stations and declinations")
    rng = ctx.rng
    recs = []
    nt = 3 if not ctx.thorough else 16

    def tide(t, X, S, L, **kw):
        return call(P.solid_earth_tide, t.copy(), X.copy(), S.copy(), L.copy(), **kw)

    def comps(d, x, scale):
        up, no, ea = local(x)[:3]
        return dict(r=q(d @ up, scale), n=q(d @ no, scale), e=q(d @ ea, scale))

    for c in cases:
        dm = [np.array(r, dtype=float) for r in (c["diurnal"], c["long"])]
        lat = np.radians(15.0 * c["la"]) + rng.uniform(-0.1, 0.1, nt)
        lon = rng.uniform(-np.pi, np.pi, nt)
        rad = 6.36e6 + rng.uniform(0, 2e4, nt)
        X = rad[:, None] * np.c_[np.cos(lat) * np.cos(lon), np.cos(lat) * np.sin(lon), np.sin(lat)]
        t = rng.uniform(-3000, 15000, nt)
        body = lambda dist: dist[:, None] * (lambda a, d: np.c_[np.cos(d) * np.cos(a), np.cos(d) * np.sin(a), np.sin(d)])(
            rng.uniform(-np.pi, np.pi, nt), np.radians(15.0 * c["de"]) + rng.uniform(-0.1, 0.1, nt))
        S, L = body(rng.uniform(1.47e11, 1.52e11, nt)), body(rng.uniform(3.6e8, 4.06e8, nt))
        o0 = tide(t, X, S, L, **ZERO, **NOMASS)
        o1 = tide(t, X, S, L, **ZERO)
        runs = {k: tide(t, X, S, L, **dict(ZERO, **{k: 1.0})) for k in ("h2", "l2", "h3", "l3")}
        od, on = tide(t, X, S, L), tide(t, X, S, L, **NOMINAL)
        tau, s, h, p, zn, ps = astro.doodson_arguments(t + 48622.0)
        args = np.c_[s, h, p, zn, ps]
        for i in range(nt):
            key = "lat %d dec %d no %d" % (15 * c["la"], 15 * c["de"], i)
            ds, dl = np.linalg.norm(S[i]), np.linalg.norm(L[i])
            f2 = (MS * RE * (RE / ds)**3, ML * RE * (RE / dl)**3)
            f3 = (MS * RE * (RE / ds)**4, ML * RE * (RE / dl)**4)
            g = dict(gs=geometry(X[i], S[i]), gm=geometry(X[i], L[i]))
            ok = lambda *o: "ok" if all(v.ok and np.shape(v.value) == (nt, 3) for v in o) else "raised"
            r = dict(key="step " + key, kind="step", status=ok(o0))
            if r["status"] == "ok":
                la = np.arctan2(X[i, 1], X[i, 0])
                a = tau[i] + dm[0] @ args[i] + la
                b = dm[1] @ args[i]
                f = lambda v: [q(x, 1e5) for x in v]
                sp = local(X[i])[4]
                hi = dict(s2=2 * sp * np.sqrt(1 - sp * sp), c2=1 - 2 * sp * sp, p2=1.5 * sp * sp - 0.5, sp=sp)
                r.update(h={a_: q(v_, 1e5) for a_, v_ in hi.items()}, d=dict(s=f(np.sin(a)), c=f(np.cos(a))), l=dict(s=f(np.sin(b)), c=f(np.cos(b))), **comps(o0.value[i], X[i], 1e8))
            recs.append(r)
            r = dict(key="small " + key, kind="small", status=ok(o0, o1), fs=q(f2[0], 1e7), fm=q(f2[1], 1e7), **g)
            if r["status"] == "ok":
                r.update(comps(o1.value[i] - o0.value[i], X[i], 1e8))
            recs.append(r)
            for k, o in runs.items():
                F, sc = (f2, 1e5) if k[1] == "2" else (f3, 1e7)
                r = dict(key=k + " " + key, kind=k, status=ok(o, o1), fs=q(F[0], sc), fm=q(F[1], sc), **g)
                if r["status"] == "ok":
                    r.update(comps(o.value[i] - o1.value[i], X[i], sc))
                recs.append(r)
            r = dict(key="defaults " + key, kind="defaults", status=ok(od, on))
            if r["status"] == "ok":
                r.update(comps(od.value[i] - on.value[i], X[i], 1e8))
            recs.append(r)
    # terms of the equilibrium tide
    rows = cases[0]["lpe"]
    for i, row in enumerate(rows):
        for conv in ("OTIS", "GOT", "FES", "ATLAS"):
            t = rng.uniform(-3000, 15000, nt)
            lat = rng.uniform(-90, 90, nt)
            dt = float(rng.choice([0.0, 0.0008]))
            o = call(P.equilibrium_tide, t.copy(), lat.copy(), constituents=[row[0]], corrections=conv, deltat=dt)
            s, h, p, N, pp = astro.mean_longitudes(t + 48622.0 + dt, ASTRO5=conv not in ("OTIS", "ATLAS"))
            G = np.radians(np.c_[s, h, p, 360.0 - N, pp] @ np.array(row[1:], dtype=float))
            for k in range(nt):
                r = dict(key="lpe %s %s %d" % (row[0], conv, k), kind="lpe", i=i + 1, status="ok" if o.ok and np.shape(o.value) == (nt,) else "raised",
                         p2=q(1.5 * np.sin(np.radians(lat[k]))**2 - 0.5, 1e5), c=q(np.cos(G[k]), 1e5))
                if r["status"] == "ok":
                    r["v"] = q(o.value[k], 1e8)
                recs.append(r)
    can = []
    for kind, field, d in (("step", "e", 90), ("small", "n", 250), ("h2", "r", 40), ("l3", "n", 250), ("defaults", "r", 5), ("lpe", "v", 900)):
        for r in recs:
            if r["kind"] == kind and r["status"] == "ok":
                can.append(dict(r, key="canary " + kind, **{field: r[field] + d}))
                break
    ctx.validate("SolidTrace", recs, canaries=can)
