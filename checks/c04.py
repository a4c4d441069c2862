"""C04: minor tides are inferred exactly for the missing minors, linearly"""
import json
import numpy as np
from vlib import *

CFG = """SPECIFICATION Spec
INVARIANTS Collected NeverSupplied OnlyRequested
CHECK_DEADLOCK FALSE
CONSTANTS
 Convs = {"OTIS", "FES", "GOT"}
 Deep = %s
"""
SHORT = ["q1", "o1", "p1", "k1", "n2", "m2", "s2", "k2", "2n2"]
MIN_S = ['2q1', 'sigma1', 'rho1', 'm1b', 'm1', 'chi1', 'pi1', 'phi1', 'theta1', 'j1', 'oo1', '2n2', 'mu2', 'nu2',
         'lambda2', 'l2', 'l2b', 't2', 'eps2', 'eta2']
SEMI = ["n2", "m2", "s2"]; DIUR = ["q1", "o1", "k1"]; LONG = ["node", "mm", "mf"]
MIN_SEMI = ['eps2', '2n2', 'mu2', 'nu2', 'gamma2', 'alpha2', 'beta2', 'delta2', 'lambda2', 'l2', 't2', 'r2', 'k2', 'eta2']
MIN_DIUR = ['2q1', 'sigma1', 'rho1', 'tau1', 'beta1', 'm1a', 'm1b', 'chi1', 'pi1', 'p1', 'psi1', 'phi1', 'theta1', 'j1', 'so1', 'oo1', 'ups1']
MIN_LONG = ['sa', 'ssa', 'sta', 'msm', 'msf', 'mst', 'mt', 'msqm', 'mq']
EQ = dict(n2=.121006, m2=.631931, s2=.294019, q1=.050184, o1=.262163, k1=.368731, node=.027929, mm=.035184, mf=.066607)


def majors(conv):
    return (SEMI + DIUR if conv == "GOT" else SHORT) + LONG


def main(ctx):
    import pyTMD.predict as P, pyTMD.arguments as A
    cases = ctx.model("InferMC", CFG % ("TRUE" if ctx.thorough else "FALSE"))
    cases = [json.loads(s) for s in sorted({json.dumps(dict(c, sup=sorted(c["sup"]), req=sorted(c["req"])), sort_keys=True) for c in cases})]
    rng = ctx.rng
    if not ctx.thorough:
        keep = [c for c in cases if len(set(c["sup"])) > 3]
        idx = sorted(rng.choice(len(keep), size=min(700, len(keep)), replace=False))
        cases = [keep[i] for i in idx]
    recs = []
    names_all = sorted(set(SHORT + MIN_S + SEMI + DIUR + LONG + MIN_SEMI + MIN_DIUR + MIN_LONG + ["m4", "s1"]))
    # data sets: layout, times, integer constants per location and constituent
    sets = []
    for d, lay in enumerate(["map", "drift", "series"] * (3 if ctx.thorough else 1)):
        n = 4
        nloc = 1 if lay == "series" else n
        t = np.round(rng.random(n) * 12000 * 24) / 24.0
        z = {c: rng.integers(-5, 6, size=nloc) + 1j * rng.integers(-5, 6, size=nloc) for c in names_all}
        m = {c: np.zeros(nloc, dtype=bool) for c in names_all}
        if lay != "series":
            m["m2"][1] = m["o1"][1] = m["mf"][1] = True
        sets.append((lay, n, nloc, t, z, m))

    def hcmat(ds, cons, zz=None):
        z = zz or ds[4]
        return np.ma.array(np.stack([z[c] for c in cons], axis=1).astype(complex), mask=np.stack([ds[5][c] for c in cons], axis=1))

    def infer(ds, cons, conv, zz=None, sl=None, **kw):
        h = hcmat(ds, cons, zz)
        t = ds[3][0] if ds[0] == "map" else ds[3]
        if sl is not None:
            h = h[sl:sl + 1] if ds[0] != "series" else h
            t = t if ds[0] == "map" else ds[3][sl:sl + 1]
        h0 = h.copy()
        o = call(P.infer_minor, t, h, list(cons), corrections=conv, **kw)
        kept = bool(np.array_equal(h0.data, h.data) and np.array_equal(np.ma.getmaskarray(h0), np.ma.getmaskarray(h)))
        return o, kept

    def vals(o):
        if not o.ok:
            return [], np.zeros(0, dtype=bool)
        v = np.ma.array(o.value)
        if v.ndim == 0:
            return [], np.zeros(0, dtype=bool)
        return [q(x, 1e6) for x in np.asarray(v.data).ravel()], np.ma.getmaskarray(v).ravel()

    pcache = {}

    def parts(di, conv, sup, method):
        mj = tuple(c for c in majors(conv) if c in sup)
        key = (di, conv, mj, method)
        if key not in pcache:
            out = {}
            every = sorted(set((MIN_SEMI + MIN_DIUR if conv == "GOT" else MIN_S) + MIN_LONG))
            for m_ in every:
                if m_ in mj:
                    out[m_] = [0] * sets[di][1]
                    continue
                o, _ = infer(sets[di], mj, conv, minor=[m_], method=method)
                v, _m = vals(o)
                out[m_] = v if len(v) == sets[di][1] else [BIG] * sets[di][1]
            pcache[key] = out
        return pcache[key]

    for i, c in enumerate(cases):
        conv = c["conv"]; sup = sorted(c["sup"]); req = sorted(c["req"])
        if not sup:
            continue
        di = i % len(sets); ds = sets[di]
        method = "linear"
        order = list(rng.permutation(sup))
        kw = {} if c["all"] else dict(minor=req)
        o, kept = infer(ds, order, conv, method=method, **kw)
        v, mk = vals(o)
        pt = parts(di, conv, sup, method)
        f = dict(map=P.map, drift=P.drift, series=P.time_series)[ds[0]]
        pred = call(f, ds[3][:1] if ds[0] == "map" else ds[3], hcmat(ds, order), order, corrections=conv)
        maskok = False
        if pred.ok and o.ok and len(v) == ds[1]:
            pm = np.ma.getmaskarray(np.ma.atleast_1d(pred.value)).ravel()
            maskok = bool(np.array_equal(pm | mk, pm))
        bad = [bool(any(ds[5][a][e if ds[0] != "series" else 0] for a in sup)) for e in range(ds[1])]
        nm = sorted(pt)
        recs.append(dict(ev="sum", conv=conv, sup=sup, req=req, all=c["all"], st="ok" if o.ok else o.err, n=len(v), want=ds[1], maskok=maskok,
                         val=v, bad=bad, names=nm, part=[pt[a] for a in nm], key=f"sum:{ds[0]}:{conv}:sup={'+'.join(sup)}:req={'all' if c['all'] else '+'.join(req)}:{o.err}"))
        if i % 3 == 0:
            o2, _ = infer(ds, order, conv, raise_exception=True, **kw)
            recs.append(dict(ev="refuse", conv=conv, sup=sup, st="ok" if o2.ok else o2.err, key=f"refuse:{conv}:sup={'+'.join(sup)}:{o2.err}"))
        if i % 4 == 0:
            al = []
            for e in range(ds[1]):
                oe, _ = infer(ds, order, conv, sl=e, **kw)
                ve, _m = vals(oe)
                al.append(ve[0] if len(ve) == 1 else BIG)
            meth = "admittance" if conv == "GOT" and i % 8 == 0 else "linear"
            if meth == "admittance":
                o, kept = infer(ds, order, conv, method=meth, **kw); v, mk = vals(o)
                al = []
                for e in range(ds[1]):
                    oe, _ = infer(ds, order, conv, sl=e, method=meth, **kw); ve, _m = vals(oe)
                    al.append(ve[0] if len(ve) == 1 else BIG)
            op, _ = infer(ds, order[::-1], conv, method=meth, **kw)
            vp, _m = vals(op)
            recs.append(dict(ev="elem", st="ok" if o.ok else o.err, val=v, alone=al, perm=vp, bad=bad, kept=kept, key=f"elem:{ds[0]}:{conv}:{meth}:sup={'+'.join(sup)}"))
        if i % 4 == 1:
            meth = "admittance" if conv == "GOT" and i % 8 == 1 else "linear"
            za = {a: ds[4][a] for a in sup}
            zb = {a: rng.integers(-4, 5, size=ds[2]) + 1j * rng.integers(-4, 5, size=ds[2]) for a in sup}
            p_, q_ = int(rng.integers(-3, 4)), int(rng.integers(-3, 4))
            zc = {a: p_ * za[a] + q_ * zb[a] for a in sup}
            z2 = {a: (za[a] if a in majors(conv) else za[a] * 7 + 3j) for a in sup}
            va, vb, vc, v2 = [vals(infer(ds, order, conv, zz=z, method=meth, **kw)[0])[0] for z in (za, zb, zc, z2)]
            ok = [e for e in range(ds[1]) if not bad[e]]
            if len(va) == len(vb) == len(vc) == len(v2) == ds[1]:
                recs.append(dict(ev="linear", p=p_, q=q_, a=[va[e] for e in ok], b=[vb[e] for e in ok], ab=[vc[e] for e in ok], a2=[v2[e] for e in ok],
                                 key=f"linear:{ds[0]}:{conv}:{meth}:sup={'+'.join(sup)}"))
    # published admittances of the short-period band; response of a minor to one unit major
    one = ("drift", 1, 1, None, None, {c: np.zeros(1, dtype=bool) for c in names_all})

    def resp(conv, m_, zz, t):
        """complex response R with value = Re(z R) for a common factor z"""
        ds = ("drift", 1, 1, np.array([t]), None, one[5])
        cons = list(zz)
        a = vals(infer(ds, cons, conv, zz={k: np.array([v]) for k, v in zz.items()}, minor=[m_])[0])
        o1 = infer(ds, cons, conv, zz={k: np.array([v]) for k, v in zz.items()}, minor=[m_])[0]
        o2 = infer(ds, cons, conv, zz={k: np.array([1j * v]) for k, v in zz.items()}, minor=[m_])[0]
        if not (o1.ok and o2.ok and np.size(o1.value) == 1 and np.size(o2.value) == 1):
            return complex(np.nan)
        return complex(np.ravel(o1.value)[0], -np.ravel(o2.value)[0])

    for conv in ("OTIS", "FES"):
        for t in (123.0, 7890.25):
            pu, pf, G = A.minor_arguments(np.array([t + 48622.0]), corrections=conv)
            for k, m_ in enumerate(MIN_S):
                mj = [a for a in SHORT if a != m_]
                for M in mj:
                    R = resp(conv, m_, {a: (1.0 if a == M else 0.0) for a in mj}, t)
                    w = R * np.exp(-1j * (np.radians(G[0, k]) + pu[0, k])) if np.isfinite(R.real) else complex(np.nan)
                    recs.append(dict(ev="short", fes=conv == "FES", m=m_, major=M, c=q(w.real, 1e9), s=q(w.imag, 1e9), f=q(pf[0, k], 1e4), key=f"short:{conv}:{m_}:{M}:{t}"))
    # the frequency-dependent admittance reproduces equilibrium proportions
    for conv, mj, mins in (("GOT", SEMI, MIN_SEMI), ("GOT", DIUR, MIN_DIUR), ("GOT", LONG, MIN_LONG), ("OTIS", LONG, MIN_LONG), ("FES", LONG, MIN_LONG)):
        om = dict(zip(mj + mins, A.frequency(mj + mins, corrections=conv)))
        for (a, b) in ((1.0, 0.0), (0.7, 6000.0), (1.3, -3000.0)):
            if mj == DIUR and b:
                continue
            for m_ in mins:
                if m_ == "psi1":
                    continue            # resonant: far from the smooth admittance
                for t in (123.0, 7890.25):
                    pu, pf, G = A.arguments(np.array([t + 48622.0]), [m_], corrections=conv)
                    R = resp(conv, m_, {c: EQ[c] * (a + b * om[c]) for c in mj}, t)
                    w = R * np.exp(-1j * (np.radians(G[0, 0]) + pu[0, 0])) / pf[0, 0] / (a + b * om[m_])
                    recs.append(dict(ev="equilibrium", m=m_, amp=q(w.real, 1e6), s=q(w.imag, 1e6), pct=0 if mj != DIUR else 170, key=f"equilibrium:{conv}:{m_}:{a},{b}:{t}"))
    can = []
    for r in [r for r in recs if r["ev"] == "sum" and any(r["val"])][:3]:
        k = json.loads(json.dumps(jsonable(r))); e = [i for i in range(len(k["bad"])) if not k["bad"][i]][0]
        k["val"][e] += 300; can.append(k)
    for r in [r for r in recs if r["ev"] == "linear" and any(r["ab"])][:2]:
        k = json.loads(json.dumps(jsonable(r))); k["ab"][0] += 200; can.append(k)
    for r in [r for r in recs if r["ev"] == "short" and r["c"]][:2]:
        k = json.loads(json.dumps(jsonable(r))); k["c"] += 90000; can.append(k)
    ctx.assumptions += ["values compared to 1e-6 m per contributing minor (the code accumulates in single precision)"]
    ctx.validate("InferTrace", recs, canaries=can)
