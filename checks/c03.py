"""C03: Doodson / Cartwright / extended codes"""
import json
import numpy as np
from vlib import *


def enc(A, name, v, tab, kw):
    rec = dict(ev="encode", v=[int(a) for a in v], cart=[], num=-1, txt=[], xdo=[])
    o = call(A.doodson_number, name, formalism="Cartwright", **kw)
    rec["sc"] = "ok" if o.ok else o.err
    if o.ok:
        rec["cart"] = [int(round(float(a))) for a in np.atleast_1d(o.value)]
    o = call(A.doodson_number, name, formalism="Doodson", **kw)
    rec["sd"] = "ok" if o.ok else o.err
    if o.ok:
        if isinstance(o.value, str):
            rec["txt"] = list(o.value)
        elif o.value is not None:
            rec["num"] = q(o.value, 1000)
    o = call(A.doodson_number, name, formalism="Extended", **kw)
    rec["sx"] = "ok" if o.ok else o.err
    if o.ok and o.value is not None:
        rec["xdo"] = list(str(o.value))
    rec["key"] = f"encode:{name}:{rec['v']}"
    return rec


def dec(A, form, arg, num=0, txt=()):
    f = A._from_extended_doodson if form == "xdo" else A._from_doodson_number
    o = call(f, arg)
    back = [int(a) for a in np.atleast_1d(o.value)] if o.ok else []
    return dict(ev="decode", form=form, num=num, txt=list(txt), back=back, st="ok" if o.ok else o.err,
                key=f"decode:{form}:{arg!r}")


def main(ctx):
    import pyTMD.arguments as A, pyTMD.io
    cfg = "SPECIFICATION Spec\nINVARIANTS RoundTrip TextIsNumber\nCHECK_DEADLOCK FALSE\nCONSTANT Extra = %s\n"
    cases = ctx.model("CodesMC", cfg % ("TRUE" if ctx.thorough else "FALSE"))
    # the code reads its coefficients from a table: give it one with our vectors
    tab = {}
    for i, c in enumerate(cases):
        tab[f"v{i}"] = [float(a) for a in c["v"]]
    recs = []
    names = list(tab)
    # chunks, so that each table file stays small and lookups fast
    sel = range(len(names)) if ctx.thorough else sorted(ctx.rng.choice(len(names), size=900, replace=False))
    far = [i for i in range(len(names)) if any(not -6 <= a <= 12 or (k and a > 7) for k, a in enumerate(cases[i]["v"]))]
    sel = sorted(set(sel) | set(far))
    for k in range(0, len(sel), 60):
        sub = {names[i]: tab[names[i]] for i in sel[k:k + 60]}
        f = ctx.scratch / f"tab{k}.json"
        f.write_text(json.dumps(sub))
        for n, v in sub.items():
            recs.append(enc(A, n, v, sub, dict(file=f)))
    # decoding of every representable vector in all written forms
    digit = "0123456789XE"
    xd = "RSTUVWXYZABCDEFGHIJKLMNOP"
    for i, c in enumerate(cases):
        v = c["v"]
        d = [v[0]] + [a + 5 for a in v[1:6]]
        if all(0 <= a <= 11 for a in d):
            t = "".join(digit[a] for a in d)
            t = t[:3] + "." + t[3:]
            recs.append(dec(A, "text", t, txt=t))
            if i % 3 == 0:
                recs.append(dec(A, "npstr", np.str_(t), txt=t))
            if all(a <= 9 for a in d):
                n = int(t.replace(".", ""))
                recs.append(dec(A, "number", n / 1000.0 if i % 2 else np.float64(n / 1000.0), num=n))
                # leading zeros left out, as in tables that list 55.565
                if t[0] == "0":
                    recs.append(dec(A, "short", t.lstrip("0") if t[1] != "0" else t[1:], txt=t))
        if all(-8 <= a <= 16 for a in v):
            x = "".join(xd[a + 8] for a in v)
            recs.append(dec(A, "xdo", np.str_(x) if i % 2 else x, txt=x))
    # all named constituents, in each convention and letter case
    from pathlib import Path
    named = json.loads((Path(A.__file__).parent / "data" / "doodson.json").read_text())
    allnames = list(named)
    for cor in ("OTIS", "FES", "GOT"):
        for n in allnames if (cor == "OTIS" or ctx.thorough) else ["s1", "m2", "k1", "sa", "node", "2n2", "m1'"]:
            o = call(A.coefficients_table, n, corrections=cor)
            v = [int(round(a)) for a in o.value[:, 0]] if o.ok else [0] * 7
            recs.append(enc(A, n.upper() if len(recs) % 2 else n, v, None, dict(corrections=cor)))
    # the s1 exception of the OTIS family
    for cor, exp in (("OTIS", [1, 1, -1, 0, 0, 0, 1]), ("ATLAS", [1, 1, -1, 0, 0, 0, 1]), ("TMD3", [1, 1, -1, 0, 0, 0, 1]),
                     ("GOT", [int(a) for a in named["s1"]]), ("FES", [int(a) for a in named["s1"]])):
        recs.append(enc(A, "s1", exp, None, dict(corrections=cor)))
    # list requests
    for n in range(300 if ctx.thorough else 60):
        form = ["Doodson", "Cartwright", "Extended"][n % 3]
        k = int(ctx.rng.integers(1, 9))
        asked = [allnames[i] for i in ctx.rng.choice(len(allnames), size=k, replace=False)]
        unsup = [False] * k
        for j in range(k):
            if ctx.rng.random() < 0.25:
                asked[j] = f"zz{j}"; unsup[j] = True
        single, sup = [], []
        for a in asked:
            o = call(A.doodson_number, a, formalism=form, raise_error=False)
            single.append(o)
        for j, a in enumerate(asked):
            if not unsup[j]:
                v = named[a]
                if form == "Doodson":
                    unsup[j] = not all(0 <= w <= 11 for w in [v[0]] + [x + 5 for x in v[1:6]])
                if form == "Extended":
                    unsup[j] = not all(-8 <= w <= 16 for w in v)
        o = call(A.doodson_number, asked if n % 2 else np.array(asked), formalism=form.lower() if n % 5 == 0 else form, raise_error=False)
        rec = dict(ev="list", asked=asked, unsup=unsup, st="ok" if o.ok else o.err, keys=[], same=[], none=[], key=f"list:{form}:{asked}:{o.err}")
        if o.ok:
            rec["keys"] = [str(k_) for k_ in o.value.keys()]
            for j, a in enumerate(asked):
                b = o.value.get(a)
                rec["none"].append(b is None)
                s = single[j]
                rec["same"].append(bool(s.ok and np.array_equal(np.asarray(s.value, dtype=object), np.asarray(b, dtype=object))))
        recs.append(rec)
    # the container reports the same codes
    for n in range(20):
        c = pyTMD.io.constituents()
        asked = [allnames[i] for i in ctx.rng.choice(len(allnames), size=4, replace=False)] + (["m2", "bogus"] if n % 2 else ["k1"])
        asked = list(dict.fromkeys(asked))
        for a in asked:
            c.append(a, np.ma.zeros((2,), dtype=complex))
        def codes():
            ok = True
            for prop_, form in ((c.doodson_number, "Doodson"), (c.cartwright_number, "Cartwright"), (c.extended_doodson, "Extended")):
                ok &= len(prop_) == len(asked)
                for a, b in zip(asked, prop_):
                    o = call(A.doodson_number, a, formalism=form)
                    ok &= (b is None) if not o.ok else bool(np.array_equal(np.asarray(o.value, dtype=object), np.asarray(b, dtype=object)))
            return bool(ok)
        o = call(codes)
        recs.append(dict(ev="container", st="ok" if o.ok else o.err, ok=bool(o.value), key=f"container:{asked}"))
    can = []
    for r in [r for r in recs if r["ev"] == "decode"][:4]:
        k = json.loads(json.dumps(r)); k["back"][2] += 1; can.append(k)
    for r in [r for r in recs if r["ev"] == "encode" and r["sd"] == "ok"][:4]:
        k = json.loads(json.dumps(r)); k["v"][1] += 1; can.append(k)
    ctx.validate("CodesTrace", recs, canaries=can)
