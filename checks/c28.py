"""C28: special functions, rotations, aliasing and published tables"""
import re
import numpy as np
from vlib import *


def main(ctx):
    import pyTMD.math as M
    import pyTMD.arguments as G
    import pyTMD.astro as A
    from pyTMD.utilities import get_data_path
    rng = ctx.rng
    base = ("SPECIFICATION Spec\nINVARIANTS Legendre Addition Rotation Aliased{}\nCHECK_DEADLOCK FALSE\n"
            "CONSTANTS Which = \"{}\"\n MaxLen = {}\n MaxDeg = 4\n FMax = 40\n FsMax = 12\n Plain = {}\n")
    get = lambda which: ctx.model("SpecialMC", base.format(" Emit", which, 3, "FALSE"), name=f"SpecialMC:{which}")
    leg, rot, ali, lov = get("legendre"), get("rotation"), get("alias"), get("love")
    ctx.refute("SpecialMC", base.format("", "legendre", 3, "TRUE"), name="orders counted once")
    recs = []

    def add(rec, o=None):
        rec.update(status="ok" if o is None or o.ok else o.err)
        if o is not None and not o.ok:
            rec["msg"] = o.msg
        recs.append(rec)

    seen = set()
    xs = {k: (c["c"] / 5.0, c["u"] / 5.0) for c in leg for k in [c["pt"]]}
    allx = np.array([xs[k][0] for k in sorted(xs)])
    for c in leg:
        l, m, k = c["l"], c["m"], c["pt"]
        if (l, m, k) in seen:
            continue
        seen.add((l, m, k))
        x = xs[k][0]
        # --- unnormalized functions of degree 0 to 3
        o = call(lambda: (M.legendre(l, x, m=m), M.legendre(l, allx, m=m), M.legendre(l, [x, x], m=m)))
        r = dict(kind="legendre", l=l, m=m, pt=k, key=f"legendre:{l}:{m}:{x}")
        if o.ok:
            a, b, d = o.value
            r.update(obs=q(np.ravel(a)[0], 1e4), scalar=bool(np.ndim(a) == 0), layout=bool(np.shape(b) == (7,) and abs(b[k - 1] - a) < 1e-12 and np.shape(d) == (2,) and d[0] == d[1]))
        add(r, o)
        # --- fully normalized functions
        for lmax in (3, 11):
            o = call(lambda: (M.assoc_legendre(lmax, x), M.assoc_legendre(lmax, allx)))
            r = dict(kind="assoc", l=l, m=m, pt=k, key=f"assoc:{lmax}:{l}:{m}:{x}")
            if o.ok:
                a, b = o.value
                v = float(np.ravel(a[l, m])[0])
                r.update(sq=q(v * v, 1e6), sgn=int(np.sign(v)) if abs(v) > 1e-12 else 0, scalar=bool(np.shape(a) == (lmax + 1, lmax + 1) and np.shape(b) == (lmax + 1, lmax + 1, 7) and abs(b[l, m, k - 1] - v) < 1e-12))
            add(r, o)
        # --- spherical harmonics at quarter turns of longitude
        th = np.arctan2(xs[k][1], x)
        for j in range(-2, 4):
            ph = j * np.pi / 2
            o = call(lambda: (M.sph_harm(l, th, ph, m=m), M.sph_harm(l, np.array([th, 1.0]), np.array([ph, 0.5]), m=m)))
            r = dict(kind="harm", l=l, m=m, pt=k, j=j, key=f"harm:{l}:{m}:{x}:{j}")
            if o.ok:
                y, z = o.value
                w = complex(np.ravel(y)[0]) * np.sqrt(4 * np.pi)
                r.update(sq=q(abs(w)**2, 1e6), sgn=[int(np.sign(v)) if abs(v) > 1e-6 else 0 for v in (w.real, w.imag)],
                         scalar=bool(np.ndim(y) == 0 and np.shape(z) == (2,) and abs(z[0] - y) < 1e-12))
            add(r, o)

    def ident(what, f, tol, key):
        o = call(f)
        add(dict(kind="identity", what=what, resid=q(o.value, 1e9) if o.ok else 0, tol=tol, key=f"identity:{what}:{key}"), o)

    X = np.concatenate([rng.uniform(-1, 1, 15), [-1.0, 0.0, 1.0, 0.999999, -0.999999]])
    nodes, wts = np.polynomial.legendre.leggauss(80)
    for lmax in ([1, 2, 7, 20, 60] + ([40, 75] if ctx.thorough else [])):
        def addition():
            p = M.assoc_legendre(lmax, X)
            return max(np.max(np.abs(np.sum(p[d]**2, axis=0) / (2 * d + 1) - 1)) for d in range(lmax + 1))

        def ortho():
            p = M.assoc_legendre(lmax, nodes)
            w = 0.0
            for m in range(0, lmax + 1, max(1, lmax // 10)):
                g = np.einsum("an,bn,n->ab", p[m:, m], p[m:, m], wts) / (2.0 if m == 0 else 4.0)
                w = max(w, np.max(np.abs(g - np.eye(lmax + 1 - m))))
            return w / 1.0

        def parity():
            p, n = M.assoc_legendre(lmax, X), M.assoc_legendre(lmax, -X)
            sg = np.array([[(-1.0)**(a + b) for b in range(lmax + 1)] for a in range(lmax + 1)])
            return np.max(np.abs(p * sg[:, :, None] - n))

        def prefix():
            p, n = M.assoc_legendre(lmax, X), M.assoc_legendre(lmax + 3, X)
            return max(np.max(np.abs(p - n[:lmax + 1, :lmax + 1])), np.max(np.abs(np.array([p[a, b] for a in range(lmax + 1) for b in range(a + 1, lmax + 1)] or [0.0]))))
        ident("AdditionTheorem", addition, 10, lmax)
        ident("Orthonormal", ortho, 10, lmax)
        ident("Parity", parity, 10, lmax)
        ident("DegreesIndependent", prefix, 1, lmax)
    tt, ww = np.arccos(nodes), wts
    for l in range(4):
        for m in range(l + 1):
            ident("UnitNorm", lambda: abs(2 * np.pi * np.sum(ww * np.abs(M.sph_harm(l, tt, np.full_like(tt, 0.3), m=m))**2) - 1.0), 10, f"{l}:{m}")
            a, b = rng.uniform(0.01, 3.13, 6), rng.uniform(-7, 7, 6)
            ident("LongitudePhase", lambda: np.max(np.abs(M.sph_harm(l, a, b, m=m) - M.sph_harm(l, a, 0 * b, m=m) * np.exp(1j * m * b))), 2, f"{l}:{m}")
            ident("LegendreAgree", lambda: np.max(np.abs(M.legendre(l, X, m=m) * (-1.0)**m * np.sqrt((2 * l + 1.0) * (1 if m == 0 else 2) / np.prod(np.arange(l - m + 1, l + m + 1, dtype=float)))
                                                         - M.assoc_legendre(4, X)[l, m])), 10, f"{l}:{m}")
        a, b = rng.uniform(0.01, 3.13, 6), rng.uniform(-7, 7, 6)
        ident("HarmonicAddition", lambda: np.max(np.abs(sum((1 if m == 0 else 2) * np.abs(M.sph_harm(l, a, b, m=m))**2 for m in range(l + 1)) * 4 * np.pi / (2 * l + 1) - 1)), 10, l)
    for l, m in ((4, 0), (2, 3), (1, -1)):
        o = call(M.legendre, l, 0.5, m=m)
        recs.append(dict(kind="identity", what="DegreeRefused", resid=1 if o.ok else 0, tol=0, status="ok", key=f"refuse:{l}:{m}"))

    # --- rotations
    sel = rot if ctx.thorough else [rot[i] for i in sorted(rng.choice(len(rot), size=min(900, len(rot)), replace=False))]
    for c in sel:
        def word():
            m, same = np.eye(3), True
            for (ax, _), (cc, ss) in zip(c["w"], c["ang"]):
                th = np.arctan2(ss, cc)
                one = M.rotate(th, ax)
                many = M.rotate(np.array([0.4, th, -1.0]), ax.upper())
                same &= bool(one.shape == (3, 3, 1) and many.shape == (3, 3, 3) and np.allclose(many[:, :, 1], one[:, :, 0], atol=1e-14))
                m = one[:, :, 0] @ m
            return m * 5.0**len(c["w"]), same
        o = call(word)
        r = dict(kind="rot", w=c["w"], key="rot:" + ",".join(a + b for a, b in c["w"]))
        if o.ok:
            r.update(obs=[[q(v, 1e3) for v in row] for row in o.value[0]], alone=o.value[1])
        add(r, o)
    o = call(M.rotate, 1.0, "w")
    recs.append(dict(kind="identity", what="AxisRefused", resid=1 if o.ok else 0, tol=0, status="ok", key="refuse:axis"))

    # --- aliasing
    for unit in (1.0, 0.37, 1e-5):
        for c in ali:
            o = call(M.aliasing, c["f"] * unit, c["fs"] * unit)
            add(dict(kind="alias", f=c["f"], fs=c["fs"], obs=q(o.value / unit, 1e3) if o.ok else 0, key=f"alias:{c['f']}:{c['fs']}:{unit}"), o)
    tabs = lov[0]["alias"]
    for row, t in enumerate(tabs):
        cons = list(t["t"])
        samp = float(t["rep"]) * 86400.0
        o = call(G.aliasing_period, cons, samp)
        w = call(G.frequency, cons)
        for i, cn in enumerate(cons):
            r = dict(kind="period", row=row + 1, c=cn, samp=q(samp / 86400, 100), key=f"period:{t['rep']}:{cn}")
            if o.ok and w.ok:
                n = np.arange(0, 40)
                x = (w.value[i] / (2 * np.pi) * samp * n)
                y = (samp * n / o.value[i])
                dd = min(np.max(np.abs((x - y + 0.5) % 1.0 - 0.5)), np.max(np.abs((x + y + 0.5) % 1.0 - 0.5)))
                r.update(obs=q(o.value[i] / 86400.0, 100), resid=q(dd, 1e9))
            add(r, o if not o.ok else w)
    every = [c for c in ["m2", "s2", "n2", "k2", "k1", "o1", "p1", "q1", "mf", "mm", "m4", "ms4", "mn4", "2n2", "s1", "nu2", "l2", "t2", "j1", "oo1", "m3", "m6", "ssa", "sa", "msf"]]
    for rep in (20.86455, 27.0, 29.53, 91.0, 0.99, 8.0):
        samp = rep * 86400.0
        o, w = call(G.aliasing_period, every, samp, corrections="GOT"), call(G.frequency, every, corrections="GOT")
        for i, cn in enumerate(every):
            r = dict(kind="period", row=0, c=cn, samp=q(rep, 100), key=f"period:{rep}:{cn}")
            if o.ok and w.ok:
                n = np.arange(0, 40)
                x, y = w.value[i] / (2 * np.pi) * samp * n, samp * n / o.value[i]
                dd = min(np.max(np.abs((x - y + 0.5) % 1.0 - 0.5)), np.max(np.abs((x + y + 0.5) % 1.0 - 0.5)))
                p = o.value[i] / 86400.0
                r.update(obs=q(min(p, 5e6), 100), resid=q(dd, 1e9))
            add(r, o if not o.ok else w)

    # --- Love numbers around the resonance
    wo1 = call(lambda: float(np.ravel(G.frequency("o1"))[0]))
    names = dict(m1066A="1066A", PEMC="PEM-C", C2="C2", PREM="PREM")
    for c in lov:
        def love():
            rt = c["num"] / c["den"]
            wf = c["fcn"] * 1e-7 * 7292115e-11
            om = (rt * wf + wo1.value) / (1.0 + rt)
            if not 2.1e-5 < om < 9.9e-5:
                return None
            return G._love_numbers(om, model=names[c["model"]]) + (() if c["model"] != "PREM" or True else ())
        o = call(love)
        if o.ok and o.value is None:
            continue
        add(dict(kind="love", band="diurnal", model=c["model"], num=c["num"], den=c["den"], obs=[q(v, 1e8) for v in o.value] if o.ok else [], key=f"love:{c['model']}:{c['num']}/{c['den']}"), o)
    for mo, nm in names.items():
        for band, om in (("semi", 1.4e-4), ("semi", 1.01e-4), ("semi", 2.8e-4), ("long", 1.9e-5), ("long", 2e-7), ("long", 5.3e-6)):
            o = call(G._love_numbers, om, model=nm)
            add(dict(kind="love", band=band, model=mo, num=0, den=1, obs=[q(v, 1e8) for v in o.value] if o.ok else [], key=f"love:{mo}:{om}"), o)
    o = call(G._love_numbers, 7e-5, model="PREM2")
    recs.append(dict(kind="identity", what="ModelRefused", resid=1 if o.ok else 0, tol=0, status="ok", key="refuse:model"))

    # --- polynomials and angles
    for k in range(60 if ctx.thorough else 25):
        c = [int(v) for v in rng.integers(-20, 20, size=int(rng.integers(1, 7)))]
        t = [int(v) for v in rng.integers(-9, 10, size=int(rng.integers(1, 5)))]
        arg = np.array(t, dtype=float) if k % 3 else float(t[0])
        t = t if k % 3 else t[:1]
        o = call(M.polynomial_sum, np.array(c, dtype=float) if k % 2 else c, arg)
        add(dict(kind="poly", c=c, t=t, obs=[q(v) for v in np.ravel(o.value)] if o.ok else [], key=f"poly:{c}:{t}"), o)
        circle = int(rng.choice([360, 24, 1296000]))
        t = [int(v) for v in rng.integers(-4000000, 4000000, size=4)] + [0, circle, -circle]
        o = call(M.normalize_angle, np.array(t, dtype=float), **({} if circle == 360 and k % 2 else dict(circle=circle)))
        add(dict(kind="mod", circle=circle, t=t, obs=[q(v) for v in np.ravel(o.value)] if o.ok else [], key=f"mod:{circle}:{k}"), o)

    # --- published tables of the tide potential and of nutation
    val = {"X": 10, "E": 11}
    for name in ("ct1971_tab5.txt", "ce1973_tab1.txt", "d1921_tab.txt"):
        path = get_data_path(["data", name])
        lines = [ln.split() for ln in path.read_text(encoding="utf8").splitlines() if ln.strip()]
        o = call(G._parse_tide_potential_table, path if name[0] == "c" else str(path))
        add(dict(kind="table", n=len(o.value) if o.ok else 0, want=len(lines), ordered=True, same=True, key=f"table:{name}"), o)
        if not o.ok:
            continue
        pick = range(len(lines)) if ctx.thorough else sorted(rng.choice(len(lines), size=min(60, len(lines)), replace=False))
        for i in pick:
            t, w = o.value[i], lines[i]
            same = [int(t[n]) for n in ("tau", "s", "h", "p", "n", "pp")] == [int(v) for v in w[:6]] and \
                all(abs(float(t[n]) - float(v)) < 1e-6 for n, v in zip(("Hs1", "Hs2", "Hs3"), w[6:9])) and str(t["DO"]) == w[9] and abs(float(t["Hs0"]) - float(w[10])) < 1e-6
            dg = [val[ch] if ch in val else int(ch) for ch in str(t["DO"]) if ch != "."]
            add(dict(kind="row", coef=[int(t[n]) for n in ("tau", "s", "h", "p", "n", "pp")], digits=dg, same=bool(same), key=f"row:{name}:{i}"))
    cols = ["l", "lp", "F", "D", "Om", "L_Me", "L_Ve", "L_E", "L_Ma", "L_J", "L_Sa", "L_U", "L_Ne", "p_A"]
    for name, f, amp in (("tab5.2e.txt", A._parse_table_5_2e, ("Cs", "Cc")), ("tab5.3a.txt", A._parse_table_5_3a, ("As", "Ac")), ("tab5.3b.txt", A._parse_table_5_3b, ("Bs", "Bc"))):
        text = get_data_path(["data", name]).read_text(encoding="utf8")
        want = [[float(v) for v in ln.split()] for ln in text.splitlines() if re.fullmatch(r"\s*\d+(\s+-?\d+\.\d+){2}(\s+-?\d+){14}\s*", ln)]
        cnt = [int(v) for v in re.findall(r"Number of terms\s*=\s*(\d+)", text)]
        o = call(f)
        r = dict(kind="table", key=f"table:{name}")
        if o.ok:
            j0, j1 = o.value
            rows = list(j0) + list(j1)
            # sine terms come first in tables 5.2e and 5.3a; the obliquity table is of cosines
            same = len(rows) == len(want) and all(
                int(t["i"]) == int(w[0]) and [int(t[c]) for c in cols] == [int(v) for v in w[3:]] and
                max(abs(float(t[amp[0]]) - w[1]), abs(float(t[amp[1]]) - w[2])) <= 1e-6 * max(1.0, abs(w[1]), abs(w[2])) for t, w in zip(rows, want))
            r.update(n=len(rows), want=len(want), ordered=bool([int(t["i"]) for t in rows] == list(range(1, len(rows) + 1)) and cnt[:2] == [len(j0), len(j1)][:len(cnt)]), same=bool(same))
        add(r, o)

    def bad(kind, _if={}, **kw):
        r = [x for x in recs if x["kind"] == kind and x["status"] == "ok" and all(x.get(a) == b for a, b in _if.items())]
        return [dict(r[-1], **kw)] if r else []
    can = bad("legendre", obs=77777) + bad("assoc", sq=-5) + bad("harm", sq=-5) + bad("identity", resid=100) + bad("alias", obs=99999) + bad("love", obs=[0, 0, 0])
    can += bad("poly", obs=[123456789] * 5) + bad("row", digits=[9] * 6) + bad("period", resid=900)
    ctx.validate("SpecialTrace", recs, canaries=can)
    ctx.assumptions.append("Legendre functions beyond degree three and arbitrary arguments are decided by identities (addition theorem, orthonormality, parity) to 1e-8")
