"""C20: harmonic analysis and current ellipses"""
import numpy as np
from vlib import *


def hodograph(p):
    i, f = np.radians(p["incl"]), np.radians(p["phase"])
    e = np.exp(-1j * f)
    return (p["maj"] * np.cos(i) + 1j * p["min"] * np.sin(i)) * e, (p["maj"] * np.sin(i) - 1j * p["min"] * np.cos(i)) * e


def main(ctx):
    import pyTMD.ellipse as E, pyTMD.predict as P, pyTMD.solve as SV
    rng = ctx.rng
    cases = ctx.model("HarmonicMC", "SPECIFICATION Spec\nINVARIANTS CanonSame CanonRange Energy Rotation Emit\nCHECK_DEADLOCK FALSE\nCONSTANT MaxJob = 3\n")
    ell = [c for c in cases if c["kind"] == "ell"]
    jobs = [c["job"] for c in cases if c["kind"] == "job"]
    if not ctx.thorough:
        jobs = [jobs[i] for i in sorted(rng.choice(len(jobs), size=140, replace=False))]
    recs = []
    # ellipses: in batches and alone
    order = rng.permutation(len(ell))
    pos = 0
    b = 0
    while pos < len(order):
        n = int(rng.integers(1, 40))
        ps = [ell[k]["p"] for k in order[pos:pos + n]]
        pos += n; b += 1
        u, v = [np.array(x) for x in zip(*[hodograph(p) for p in ps])]
        if b % 3 == 0 and len(ps) % 2 == 0:
            u, v = u.reshape(2, -1), v.reshape(2, -1)
        u0, v0 = u.copy(), v.copy()
        o = call(E.ellipse, u, v)
        kept = np.array_equal(u, u0) and np.array_equal(v, v0)
        par = [np.array([float(p[k]) for p in ps]) for k in ("maj", "min", "incl", "phase")]
        par0 = [x.copy() for x in par]
        inv = call(E.inverse, *par)
        kept = kept and all(np.array_equal(x, y) for x, y in zip(par, par0))
        bk = call(E.inverse, *o.value) if o.ok else o
        for k, p in enumerate(ps):
            r = dict(kind="ellipse", p={kk: int(vv) for kk, vv in p.items()}, status="ok", kept=kept, key=f"ellipse:{p['maj']}:{p['min']}:{p['incl']}:{p['phase']}")
            if not (o.ok and inv.ok and bk.ok):
                r["status"] = o.err or inv.err or bk.err
            else:
                M, m, I, F = [np.ravel(x)[k] for x in o.value]
                r.update(maj=q(M, 1e6), min=q(m, 1e6), incl=q(I, 1e6), phase=q(F, 1e6), majge=bool(M >= abs(m) - 1e-12),
                         inclok=bool(0 <= I < 180), phaseok=bool(0 <= F < 360),
                         iu=[q(inv.value[0][k].real, 1e6), q(inv.value[0][k].imag, 1e6)], iv=[q(inv.value[1][k].real, 1e6), q(inv.value[1][k].imag, 1e6)])
                du = np.ravel(bk.value[0])[k] - np.ravel(u)[k]; dv = np.ravel(bk.value[1])[k] - np.ravel(v)[k]
                r["res"] = [q(x, 1e9) for x in (du.real, du.imag, dv.real, dv.imag)]
                one = call(E.ellipse, complex(np.ravel(u)[k]), complex(np.ravel(v)[k]))
                r["alone"] = bool(one.ok and all(np.size(x) == 1 and abs(np.ravel(x)[0] - y) < 1e-9 for x, y in zip(one.value, (M, m, I, F)))
                                  and all(np.shape(x) == u.shape for x in o.value))
            recs.append(r)
    for k in range(12):
        n = 6
        u = np.ma.array(rng.normal(size=n) + 1j * rng.normal(size=n), mask=rng.random(n) < 0.4)
        v = np.ma.array(rng.normal(size=n) + 1j * rng.normal(size=n), mask=u.mask.copy())
        o = call(E.ellipse, u, v)
        bk = call(E.inverse, *o.value) if o.ok else o
        r = dict(kind="mask", status="ok" if bk.ok else bk.err, key=f"mask:{k}", want=[bool(x) for x in u.mask])
        if bk.ok:
            r["mask"] = [bool(x) for x in np.ma.getmaskarray(bk.value[0])]
            r["ok"] = bool(np.all(np.ma.filled(abs(bk.value[0] - u), 0) < 1e-9) and np.all(np.ma.filled(abs(bk.value[1] - v), 0) < 1e-9))
        recs.append(r)
    # harmonic analysis
    sets = {1: (30.0, ["m2"]), 2: (75.0, ["m2", "s2", "n2", "k1", "o1", "q1", "m4", "mf"]),
            3: (420.0, ["m2", "s2", "n2", "k2", "k1", "o1", "p1", "q1", "ms4", "mm", "ssa", "m6", "2n2", "mn4"])}
    pool = ["m2", "s2", "n2", "k1", "o1", "q1", "m4", "mf", "mm", "ms4", "mn4", "m6", "m8", "m3", "mk3", "s4", "2n2", "j1", "oo1", "mu2"]
    for jn, j in enumerate(jobs):
        span, cons = sets[j["n"]]
        if j["n"] == 2 and jn % 2:
            span, cons = 190.0, [pool[i] for i in sorted(rng.choice(len(pool), size=int(rng.integers(2, 9)), replace=False))]
        cons = list(cons)
        t0 = float(rng.choice([-9000.3, 3652.0, 10227.5]))
        nt = max(12, int(span * (8 if j["n"] < 3 else 3)))
        t = t0 + np.sort(rng.uniform(0, span, nt))
        if j["times"] == "shuffled":
            rng.shuffle(t)
        dt = float(rng.choice([0.0, 0.0008]))
        if jn % 4 == 0:
            dt = np.full(nt, 0.0007) + np.linspace(0, 1e-6, nt)
        amp = rng.uniform(0.05, 2.0, len(cons)); ph = rng.uniform(0, 360, len(cons))
        ph[rng.integers(len(cons))] = float(rng.choice([0.0, 90.0, 180.0, 270.0, 359.9999]))
        hc = np.ma.array([amp * np.exp(-1j * np.radians(ph))], mask=np.zeros((1, len(cons)), bool))
        if j["order"] == "reversed":
            perm = np.arange(len(cons))[::-1]
        elif j["order"] == "shuffled":
            perm = rng.permutation(len(cons))
        else:
            perm = np.arange(len(cons))
        s = call(P.time_series, t, hc, cons, deltat=dt, corrections=j["conv"])
        want = [cons[k] for k in perm]
        rec = dict(kind="solve", status="ok", key=f"solve:{j['solver']}:{j['conv']}:{j['gap']}:{j['order']}:{','.join(want)}", kept=True,
                   wamp=[q(amp[k], 1e6) for k in perm], wph=[q(ph[k], 1e6) for k in perm], amp=[], ph=[], msg="")
        if not s.ok or np.size(s.value) != nt:
            rec["status"] = s.err or "shape"
        else:
            h = np.array(s.value.data, dtype=float).ravel() + float(rng.choice([0.0, 12.5]))
            miss = rng.random(nt) < 0.15
            if j["gap"] == "masked":
                h[miss] = 9999.0
                h = np.ma.array(h, mask=miss)
            elif j["gap"] == "nan":
                h[miss] = np.nan
            elif j["gap"] == "both":
                h[miss] = -1e4
                h = np.ma.array(h, mask=miss)
                h.data[::7] = np.nan
            snap = (t.copy(), np.array(h).copy(), np.ma.getmaskarray(h).copy(), list(want), np.copy(dt))
            o = call(SV.constants, t, h, want, deltat=dt, corrections=j["conv"], solver=j["solver"])
            rec["kept"] = bool(np.array_equal(snap[0], t) and np.array_equal(snap[1], np.array(h), equal_nan=True) and np.array_equal(snap[2], np.ma.getmaskarray(h))
                               and snap[3] == want and np.array_equal(snap[4], dt))
            if not o.ok:
                rec["status"] = o.err; rec["msg"] = o.msg
            else:
                rec["amp"] = [q(x, 1e6) for x in np.ravel(o.value[0])]
                rec["ph"] = [q(x, 1e6) for x in np.ravel(o.value[1])]
        recs.append(rec)
    # too few observations or a mismatch are refused
    t = np.arange(0, 10, 0.5); h = np.cos(t)
    for nm, a in dict(few=(t[:4], h[:4], ["m2", "s2"]), mismatch=(t, h[:-1], ["m2"]),
                      fewvalid=(t, np.ma.array(h, mask=np.arange(20) > 3), ["m2", "s2"]), fewnan=(t, np.where(np.arange(20) > 3, np.nan, h), ["m2", "s2"])).items():
        o = call(SV.constants, *a)
        recs.append(dict(kind="refuse", status="ok", err=o.err, key=f"refuse:{nm}"))
    can = []
    e = next(r for r in recs if r["kind"] == "ellipse" and r["status"] == "ok" and r["p"]["min"] == 3 and r["p"]["maj"] == 5)
    can += [dict(e, incl=e["incl"] + 90000000), dict(e, min=-e["min"]), dict(e, iu=[-e["iu"][0] + 10**6, -e["iu"][1] + 10**6])]
    e = next(r for r in recs if r["kind"] == "solve" and r["status"] == "ok")
    can += [dict(e, amp=[a + 60 for a in e["amp"]]), dict(e, ph=[a + 1000 for a in e["ph"]])]
    ctx.validate("HarmonicTrace", recs, canaries=can)
