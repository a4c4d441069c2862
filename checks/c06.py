"""C06: the same lattice model through every file format"""
import json
import numpy as np
import compact, models as M, mgen
from vlib import *


def main(ctx):
    rng = ctx.rng
    W = mgen.World(ctx)
    reps = 6 if ctx.thorough else 1
    methods = ["spline", "bilinear", "linear", "nearest"]
    consets = [("m2", "k1", "2n2"), ("s2", "o1"), ("mf", "m4", "eps2", "q1"), ("k2",), ("n2", "msf", "p1", "ssa", "m2")]
    nj = 0
    for rep in range(reps):
        for kind in ("z", "uv"):
            for fmt in (M.FORMATS_Z if kind == "z" else M.FORMATS_UV):
                lays = [l for l in mgen.LAYOUTS if mgen.allowed(fmt, l)]
                for gz in ((False, True) if fmt in M.GZ else (False,)):
                    for li, lay in enumerate(lays):
                        if not ctx.thorough and gz and (li + nj) % 3:
                            continue
                        kw = {}
                        if mgen.LAYOUTS[lay].get("W") == 6 and rng.random() < 0.5:
                            kw["W"] = int(rng.integers(3, 7))
                        elif lay == "pix" and rng.random() < 0.6:
                            # rows of 36 columns: longer than one line of the text formats, or 33 (a multiple of 11) on a regional one
                            kw = [dict(W=36, dx=10.0, x0=5.0), dict(W=33, dx=10.0, x0=5.0, glob=False), dict(W=30, dx=10.0, x0=10.0, glob=False), dict(W=11, dx=10.0, x0=10.0, glob=False)][int(rng.integers(4))]
                        kw["H"] = int(rng.integers(3, 6))
                        w = W.build(rng, fmt, kind, lay, cons=consets[int(rng.integers(len(consets)))], gz=gz, **kw)
                        nj += 1
                        model = W.load(w)
                        for t in w["mods"]:
                            for path in ("extract", "read"):
                                ms = methods if ctx.thorough else [str(x) for x in rng.choice(methods, size=2, replace=False)]
                                for meth in ms:
                                    W.ask(w, model, t, W.points(rng, w, 12, margin=int(rng.choice([0, 0, 3]))), path=path, method=meth, depth=False,
                                          key=f"{fmt}|{kind}|{t}|{lay}|{meth}|{path}|gz{int(gz)}|{'.'.join(w['cons'])}")
    # a list of one file holding several constituents, as a directory and a glob pattern give
    for fmt in ("OTIS", "TMD3"):
        for kind in ("z", "uv"):
            for rep in range(3 * reps):
                w = W.build(rng, fmt, kind, ["pix", "reg", "cats"][rep % 3])
                d = dict(w["definition"])
                one = d["model_file"] if kind == "z" else d["model_file"]["u"]
                d["model_file"] = [one] if kind == "z" else dict(u=[one])
                w["definition"] = d
                model = W.load(w)
                for t in list(w["mods"])[:2]:
                    for path in ("extract", "read"):
                        W.ask(w, model, t, W.points(rng, w, 8), path=path, method=methods[rep % 4], key=f"{fmt}|{kind}|{t}|onefile-list|{path}")
    # definitions with a directory and patterns
    for fmt in ("OTIS", "OTIS-list", "ATLAS-netcdf", "GOT-ascii", "GOT-netcdf", "FES-netcdf:FES2014", "FES-ascii:FES2004", "TMD3"):
        for kind in ("z", "uv"):
            if kind == "uv" and fmt not in M.FORMATS_UV:
                continue
            for rep in range(2 * reps):
                w = W.build(rng, fmt, kind, ["pix", "reg"][rep % 2], shuffle=False)
                d = w["definition"] = M.globbed(w["definition"], w["dir"], bool(rep % 2))
                model = W.load(w)
                for t in list(w["mods"])[:2]:
                    for path in ("extract", "read"):
                        r = W.ask(w, model, t, W.points(rng, w, 8), path=path, method=methods[(rep + 1) % 4], key=f"{fmt}|{kind}|{t}|directory|{path}|{rep}")
                        if not rep % 2:
                            mgen.reorder(r, w["cons"])
    # flexure of TMD3 models
    for rep in range(3 * reps):
        w = W.build(rng, "TMD3", "z", ["cats", "pix", "reg"][rep % 3], flexure=True)
        model = W.load(w)
        for path in ("extract", "read"):
            for flex in (True, False):
                meth = methods[int(rng.integers(4))]
                t = "z*" if flex else "z"
                r = M.ask(model.value, w["ds"], w["mods"][t], "z", W.points(rng, w, 10), path=path, method=meth, key=f"TMD3|z|flexure{int(flex)}|{meth}|{path}",
                          apply_flexure=flex) if model.ok else dict(kind="ask", mod=0, status="load " + model.err, key="TMD3|flexure")
                W.recs.append(r)
    # equilibrium node tide appended
    for rep in range(12 * reps):
        fmt = (M.FORMATS_Z)[rep % len(M.FORMATS_Z)]
        w = W.build(rng, fmt, "z", "pix", landp=0.2)
        model = W.load(w)
        for path in ("extract", "read"):
            W.ask(w, model, "z", W.points(rng, w, 8), path=path, method="bilinear", key=f"{fmt}|node|{path}", append_node=True)
    # ATLAS-compact files: every layout of records and patches
    cfg = "SPECIFICATION Spec\nINVARIANTS ReadsWhatItWants EndsAtEnd Emit\nCHECK_DEADLOCK FALSE\nCONSTANTS\n Design=\"%s\"\n EmitOn=%s\n"
    cases = ctx.model("CompactMC", cfg % ("sound", "TRUE"), name="cursor over every ATLAS-compact file of the bounds")
    for d in ("absent z", "absent uv", "own count"):
        ctx.refute("CompactMC", cfg % (d, "FALSE"), name=d)
    recs = []
    for i in (range(len(cases)) if ctx.thorough else rng.choice(len(cases), 300, replace=False)):
        compact.replay(ctx, cases[i], rng, recs, f"compact|{i}")
    can = []
    for k in range(5):
        r = json.loads(json.dumps(jsonable([x for x in recs if x["kind"] == "con"][int(rng.integers(100))])))
        r["main"][0][k % 2] += 1; r["key"] = "canary"; can.append(r)
    ctx.validate("CompactTrace", recs, canaries=can)
    can = mgen.canaries(W.recs, rng, 10)
    W.validate(can)
    ctx.notes["models written"] = nj
    ctx.assumptions += ["grids of at least 3 x 3 nodes with exact spacing; constituents never exactly zero at a wet node (some formats use 0 as missing)",
                        "FES currents are declared in the file units; they are stored here so that a depth of 200 m converts them"]
