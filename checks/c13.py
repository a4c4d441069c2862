"""C13: constituent names in labels and file names"""
import numpy as np
from vlib import *


def spell(s, case, k):
    if case == "lower": return s.lower()
    if case == "upper": return s.upper()
    if case == "title": return s.title()
    return "".join(c.upper() if (i + k) % 2 else c.lower() for i, c in enumerate(s))


def main(ctx):
    import pyTMD.io, pyTMD.io.model, pyTMD.arguments as A
    cfg = ("SPECIFICATION Spec\nINVARIANTS CanonicalAlwaysClear NoCollision ExpansionsCanonical JunkClear\nCHECK_DEADLOCK FALSE\n")
    cases = ctx.model("NamesMC", cfg)
    if not ctx.thorough:
        # every name in every template, two letter cases each
        cases = [c for k, c in enumerate(cases) if c["case"] in ("lower", "upper") or (k % 3) == 0]
    recs = []
    known = {}
    def isknown(n):
        if n not in known:
            o = call(A.coefficients_table, [n], corrections="OTIS")
            ok = o.ok and np.isfinite(np.asarray(o.value)).all() and (np.abs(np.asarray(o.value)).sum() > 0 or n in ("z0",))
            if n.endswith("'"):
                o2 = call(A.doodson_number, n)
            known[n] = bool(ok)
        return known[n]
    labels = []
    for k, c in enumerate(cases):
        w = spell("".join(c["name"]), c["case"], k)
        pre, post = "".join(c["pre"]), "".join(c["post"])
        lab = pre + w + post
        labels.append((c, lab))
        if k % 2:
            o = call(pyTMD.io.constituents.parse, lab)
        else:
            # the same through the model's file parser, below a directory tree that
            # itself contains constituent-like names
            o = call(pyTMD.io.model.parse_file, f"/data/s2_k1/M2.d/{lab}", raise_error=True)
        got = o.value if (o.ok and isinstance(o.value, str)) else ""
        recs.append(dict(ev="parse", label=list((c["pre"] + c["name"] + c["post"])), got=list(got),
            status="ok" if o.ok else o.err, known=isknown(got) if got else False,
            key=f"parse:{lab}:got={got or o.err}"))
    for lab in ["grid.nc", "depth.nc", "xyz", "bathy", "readme", "model_v5", "hf.Arc", "atlas", "grid_tpxo", "UV.out"]:
        o = call(pyTMD.io.constituents.parse, lab)
        recs.append(dict(ev="parse", label=list(lab), got=list(o.value or "") if o.ok else [], status="ok" if o.ok else o.err,
                         known=True, key=f"parse:{lab}"))
    # constituents of a model defined by its files, in file order
    can_c = [(c, lab) for c, lab in labels if c["kind"] == "canonical"]
    for n in range(200 if ctx.thorough else 40):
        idx = ctx.rng.choice(len(can_c), size=int(ctx.rng.integers(1, 7)), replace=False)
        files = ["/d/" + can_c[i][1] for i in idx]
        m = pyTMD.io.model.model() if hasattr(pyTMD.io.model, "model") else pyTMD.io.model("")
        kind = n % 4
        m.model_file = files if kind == 0 else ({"u": files, "v": files} if kind == 1 else
                        (files[0] if kind == 2 else {"u": pathlib.Path(files[0]), "v": pathlib.Path(files[0])}))
        o = call(m.parse_constituents)
        use = idx if kind < 2 else idx[:1]
        got = [list(x or "") for x in m.constituents] if o.ok else []
        recs.append(dict(ev="files", labels=[can_c[i][0]["pre"] + can_c[i][0]["name"] + can_c[i][0]["post"] for i in use],
                         got=got, status="ok" if o.ok else o.err, key=f"files:{[f.split('/')[-1] for f in files]}"))
    can = []
    for r in recs[:5]:
        c = json.loads(json.dumps(r)); c["got"] = ["m", "7"]; can.append(c)
    ctx.validate("NamesTrace", recs, canaries=can)
