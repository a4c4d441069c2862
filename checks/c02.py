"""C02: nodal corrections and equilibrium arguments obey constituent algebra"""
import json
import numpy as np
from vlib import *

PAR = ['m2', 's2', 'n2', 'k1', 'k2', 'o1', 'q1', 'p1', 'l2', 'nu2', 'mu2', 't2', 'r2', 'j1', 'oo1']
CONVS = ["OTIS", "FES", "GOT", "perth3"]
M1S = ["Doodson", "Ray", "perth5"]
CFG = """SPECIFICATION Spec
INVARIANTS Independent
CHECK_DEADLOCK FALSE
CONSTANTS
 Names = {%s}
 MaxLen = %d
 Convs = {%s}
"""


def lnf(f):
    f = float(f)
    return q(np.log(f), 1e7) if f > 0 else BIG


def main(ctx):
    import pyTMD.arguments as A, pyTMD.astro
    from pathlib import Path
    table = json.loads((Path(A.__file__).parent / "data" / "doodson.json").read_text())
    every = list(table)
    reps = ["m2", "o2", "oq2", "2oq1", "mks2", "2mk3", "k1", "l2", "mf", "s1", "m1", "msk6", "j1'", "2ok1"]
    fmt = lambda s: ", ".join('"%s"' % a for a in s)
    reps = [n for n in reps if n in table and "'" not in n and n in
            set(PAR) | set(_compounds())]
    cases = ctx.model("NodalMC", CFG % (fmt(reps), 2, fmt(CONVS)), name="batches<=2")
    cases += ctx.model("NodalMC", CFG % (fmt(reps[:6]), 3 if not ctx.thorough else 4, fmt(["OTIS", "FES"])), name="batches<=3/4")
    cases += ctx.model("NodalMC", CFG % (fmt(sorted(set(_compounds()) & set(table)) + PAR), 1, fmt(CONVS)), name="every compound")
    recs = []
    single = {}

    def times(k):
        base = 51544.0 + 365.25 * ((k * 7) % 29)
        return base + np.array([0.0, 0.125, 1234.375, 4000.5])[:]

    def one(c, conv, mjd, m1, dt):
        key = (c, conv, float(mjd), m1, dt)
        if key not in single:
            o = call(A.arguments, np.array([mjd]), [c], corrections=conv, M1=m1, deltat=dt)
            if not o.ok or np.shape(o.value[0]) != (1, 1):
                single[key] = (BIG, BIG, BIG)
            else:
                pu, pf, G = o.value
                single[key] = (q(pf[0, 0], 1e7), q(pu[0, 0], 1e7), q(np.mod(G[0, 0], 360.0), 1e5))
        return single[key]

    def batch(names, conv, tt, m1="perth5", dt=0.0, form=0):
        arg = list(names)
        arg = [arg, tuple(arg), np.array(arg)][form % 3]
        mjd = np.array(tt)
        keep = mjd.copy()
        if len(tt) == 1 and form % 2:
            mjd = np.float64(tt[0])
        o = call(A.arguments, mjd, arg, corrections=conv, M1=m1, deltat=dt)
        rec = dict(ev="batch", st="ok" if o.ok else o.err, f=[], u=[], g=[], f1=[], u1=[], g1=[], kept=bool(np.all(keep == mjd)),
                   key=f"batch:{conv}:{m1}:{len(tt)}t:{'+'.join(names)}:{o.err}")
        for t in tt:
            for c in names:
                a = one(c, conv, t, m1, dt)
                rec["f1"].append(a[0]); rec["u1"].append(a[1]); rec["g1"].append(a[2])
        if o.ok:
            pu, pf, G = o.value
            if np.shape(pu) == np.shape(pf) == np.shape(G) == (len(tt), len(names)):
                rec["f"] = [q(v, 1e7) for v in pf.ravel()]
                rec["u"] = [q(v, 1e7) for v in pu.ravel()]
                rec["g"] = [q(np.mod(v, 360.0), 1e5) for v in G.ravel()]
        recs.append(rec)

    for k, c in enumerate(cases):
        batch(c["batch"], c["conv"], list(times(k % 5)[:c["nt"]]), form=k)
    # random batches over the whole table
    for k in range(1500 if ctx.thorough else 250):
        n = int(ctx.rng.integers(2, 9))
        names = [every[i] for i in ctx.rng.choice(len(every), size=n)]
        if k % 4 == 0:
            names[int(ctx.rng.integers(n))] = "m1"
        tt = list(48000.0 + 0.125 * np.floor(ctx.rng.random(int(ctx.rng.integers(1, 5))) * 8 * 15000))
        batch(names, CONVS[k % 4] if k % 9 else "ATLAS", tt, m1=M1S[k % 3], dt=[0.0, 0.0007428, 0.0008][k % 3], form=k)
    # one call with everything, and in reverse
    for conv in CONVS:
        tt = list(times(2)[:3])
        batch(every, conv, tt); batch(every[::-1], conv, tt)

    # the algebra on nodal(): longitudes of node and perigee are free
    ang = [(12.5, 40.0), (77.25, 311.0), (123.0, 200.0), (188.0, 95.5), (255.75, 12.25), (340.5, 170.0)]
    if ctx.thorough:
        ang += [(float(a), float(b)) for a, b in ctx.rng.integers(0, 1440, size=(60, 2)) / 4.0]
    n = np.array([a for a, b in ang]); p = np.array([b for a, b in ang])
    comps = [c for c in _compounds() if c in table]
    for conv in CONVS:
        u, f = A.nodal(n, p, comps + PAR, corrections=conv)
        for i, c in enumerate(comps):
            for t in range(len(n)):
                recs.append(dict(ev="compound", n=c, conv=conv, lf=lnf(f[t, i]), u=q(u[t, i], 1e7),
                    plf=[lnf(f[t, len(comps) + j]) for j in range(len(PAR))],
                    pu=[q(u[t, len(comps) + j], 1e7) for j in range(len(PAR))],
                    key=f"compound:{conv}:{c}:{n[t]}:{p[t]}"))
    for c in _compounds():
        recs.append(dict(ev="coef", n=c, c=[int(v) for v in A.coefficients_table(c, corrections="GOT")[:, 0]] if c in table else [99] * 7, key=f"coef:{c}"))
    for c in PAR:
        recs.append(dict(ev="parent", n=c, c=[int(v) for v in A.coefficients_table(c)[:, 0]], key=f"parent:{c}"))

    # equilibrium argument: integer combination of the longitudes; published speeds
    for conv in CONVS:
        astro5 = conv != "OTIS"
        for dt in (0.0, 0.00075):
            for mjd in (51544.375, 53371.5, 58119.125, 44239.75):
                s, h, pp_, nn, ps = [float(np.squeeze(v)) for v in pyTMD.astro.mean_longitudes(np.array([mjd + dt]), ASTRO5=astro5)]
                tau = 360.0 * (mjd % 1) - s + h
                a = [q(np.mod(v, 360.0), 1e5) for v in (tau, s, h, pp_, nn, ps)] + [9000000]
                o = call(A.arguments, np.array([mjd]), every, corrections=conv, deltat=dt)
                cc = A.coefficients_table(every, corrections=conv)
                for i, c in enumerate(every):
                    recs.append(dict(ev="arg", st="ok" if o.ok else o.err, g=q(np.mod(o.value[2][0, i], 360.0), 1e5) if o.ok else BIG,
                                     c=[int(v) for v in cc[:, i]], a=a, key=f"arg:{conv}:{c}:{mjd}:{dt}"))
        r = A.frequency(every, corrections=conv)
        dph = lambda w: np.degrees(w) * 3600.0
        basis = ["m2"]
        l0 = pyTMD.astro.mean_longitudes(np.array([51544.5]), ASTRO5=astro5)
        l1 = pyTMD.astro.mean_longitudes(np.array([51545.5]), ASTRO5=astro5)
        d = [((float(np.squeeze(b)) - float(np.squeeze(a)) + 180.0) % 360.0) - 180.0 for a, b in zip(l0, l1)]
        rate = [15.0 + (d[1] - d[0]) / 24.0] + [v / 24.0 for v in d] + [0.0]
        cc = A.coefficients_table(every, corrections=conv)
        for i, c in enumerate(every):
            recs.append(dict(ev="combine", w=q(dph(r[i]), 1e6), c=[int(v) for v in cc[:, i]], rate=[q(v, 1e6) for v in rate], key=f"combine:{conv}:{c}"))
        for c in _speeds():
            o = call(A.frequency, [c], corrections=conv)
            recs.append(dict(ev="speed", n=c, w=q(dph(np.atleast_1d(o.value)[0]), 1e6) if o.ok else BIG, key=f"speed:{conv}:{c}"))
        for k, (t0, dd) in enumerate([(57000.0, 0.25), (57000.75, 1.0), (52123.5, 3.5), (59999.875, 12.125), (60310.5, 0.5)]):
            g = A.arguments(np.array([t0, t0 + dd]), every, corrections=conv)[2]
            for i, c in enumerate(every):
                recs.append(dict(ev="advance", g1=q(np.mod(g[0, i], 360.0), 1e5), g2=q(np.mod(g[1, i], 360.0), 1e5),
                                 wdt=q(np.mod(dph(r[i]) * 24.0 * dd, 360.0), 1e5), tol=40, key=f"advance:{conv}:{c}:{t0}:{dd}"))
    # the conventions of one family are one convention
    tt = times(3)
    ref = A.arguments(tt, every, corrections="OTIS"); rf = A.frequency(every, corrections="OTIS")
    for conv in ("ATLAS", "TMD3", "netcdf"):
        o = call(A.arguments, tt, every, corrections=conv)
        for nm, i in (("u", 0), ("f", 1), ("g", 2)):
            recs.append(dict(ev="same", eq=bool(o.ok and np.allclose(o.value[i], ref[i], atol=1e-9, rtol=0)), key=f"same:{conv}:{nm}"))
        recs.append(dict(ev="same", eq=bool(np.allclose(A.frequency(every, corrections=conv), rf, rtol=1e-12, atol=0)), key=f"same:{conv}:w"))
    # mean longitudes of the three formulations describe the same sky
    for mjd in np.arange(47892.25, 62000.0, 731.0):
        L = [pyTMD.astro.mean_longitudes(np.array([mjd]), **kw) for kw in ({}, dict(MEEUS=True), dict(ASTRO5=True))]
        for j in (1, 2):
            recs.append(dict(ev="longitudes", a=[q(float(np.squeeze(v)), 1e5) for v in L[0][:4]], b=[q(float(np.squeeze(v)), 1e5) for v in L[j][:4]], key=f"longitudes:{mjd}:{j}"))
        M = np.array([mjd, mjd + 1000.0, mjd - 4000.0])
        for kw in ({}, dict(MEEUS=True), dict(ASTRO5=True)):
            full = pyTMD.astro.mean_longitudes(M, **kw)
            one_ = pyTMD.astro.mean_longitudes(M[1:2], **kw)
            recs.append(dict(ev="longitudes", a=[q(v[1], 1e5) for v in full[:4]], b=[q(v[0], 1e5) for v in one_[:4]], key=f"longitudes:batch:{mjd}:{kw}"))
    can = []
    for ev, ed in (("batch", lambda r: r["f"].__setitem__(0, r["f"][0] + 5)), ("compound", lambda r: r.__setitem__("u", r["u"] + 200)),
                   ("arg", lambda r: r.__setitem__("g", r["g"] + 300)), ("speed", lambda r: r.__setitem__("w", r["w"] + 9)),
                   ("advance", lambda r: r.__setitem__("g2", r["g2"] + 300)), ("coef", lambda r: r["c"].__setitem__(3, r["c"][3] + 1))):
        src = [r for r in recs if r["ev"] == ev and (ev != "compound" or r["u"] not in (0, BIG)) and (ev != "batch" or r["f"])]
        for r in src[:2]:
            k = json.loads(json.dumps(jsonable(r))); ed(k); can.append(k)
    ctx.assumptions += ["amplitude factors compared to 1e-7, phases to 1e-7 rad, arguments to 1e-5 degree times the order of the constituent",
                        "compounds that the code deliberately leaves unmodulated (f=1, u=0) are accepted as such"]
    ctx.validate("NodalTrace", recs, canaries=can)


def _tab(name):
    import re
    txt = (SPEC / "NodalTable.tla").read_text()
    body = txt.split(name + " == <<")[1]
    return re.findall(r'^\s*<<"([^"]+)"', body.split("==")[0], re.M)


def _compounds():
    return _tab("Compounds")


def _speeds():
    return _tab("Speeds")
