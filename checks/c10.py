"""C10: validity of points, and extrapolation within the cutoff"""
import itertools
import numpy as np
import models as M, mgen
from vlib import *


def main(ctx):
    rng = ctx.rng
    W = mgen.World(ctx)
    methods = ["spline", "bilinear", "linear", "nearest"]
    reps = 8 if ctx.thorough else 1
    geo = [0.0, 10.0, 120.0, 350.0, 800.0, 1500.0, 4000.0, np.inf]
    pla = [0.0, 4.0, 10.0, 20.0, np.inf]
    for rep in range(reps):
        for kind in ("z", "uv"):
            for fmt in (M.FORMATS_Z if kind == "z" else M.FORMATS_UV):
                for lay in mgen.LAYOUTS:
                    if not mgen.allowed(fmt, lay) or (not ctx.thorough and rng.random() < 0.45):
                        continue
                    w = W.build(rng, fmt, kind, lay, cons=("m2", "k1"), landp=float(rng.choice([0.0, 0.3, 0.6, 0.9])), H=5)
                    ds = w["ds"]
                    model = W.load(w)
                    for t in (list(w["mods"]) if ctx.thorough else list(w["mods"])[:2]):
                        for k in range(3):
                            meth = str(rng.choice(methods)); path = str(rng.choice(["extract", "read"]))
                            ex = k > 0
                            cut = [None, None, np.inf][k] if rng.random() < 0.25 else float(rng.choice(geo if ds.proj == "EPSG:4326" else pla))
                            pts = W.points(rng, w, 14, margin=int(rng.choice([0, 4, 9])))
                            W.ask(w, model, t, pts, path=path, method=meth, extrapolate=ex, cutoff=cut, shift=W.turns(rng, w, t, pts),
                                  key=f"{fmt}|{kind}|{t}|{lay}|{meth}|{path}|ex{int(ex)}|cut{cut}")
    # every mask of a 3 x 3 grid (16 in quick), queries at all of its quarter points
    masks = list(itertools.product([False, True], repeat=9))
    for i in (range(512) if ctx.thorough else sorted(rng.choice(512, size=24, replace=False))):
        fmt, kind = [("OTIS", "z"), ("ATLAS-netcdf", "z"), ("GOT-netcdf", "z"), ("FES-netcdf:FES2014", "z"), ("OTIS", "uv"), ("ATLAS-netcdf", "uv"), ("TMD3", "z"), ("GOT-ascii", "z")][i % 8]
        wet = np.array(masks[i]).reshape(3, 3)
        w = W.build(rng, fmt, kind, "reg", cons=("m2",), W=3, H=3, wet=wet, cwet=False)
        model = W.load(w)
        for t in list(w["mods"])[:2]:
            pts = [(x, y) for x in range(-1, 10) for y in range(-1, 10)]
            meth = str(rng.choice(methods)); path = str(rng.choice(["extract", "read"]))
            for ex in (False, True):
                W.ask(w, model, t, pts, path=path, method=meth, extrapolate=ex, cutoff=float(rng.choice([0.0, 400.0, 700.0, 1100.0, np.inf])), key=f"{fmt}|{kind}|{t}|mask{i}|{meth}|{path}|ex{int(ex)}")
    # points on their own (the candidates for extrapolation are chosen around all points of a call)
    for rep in range(6 * reps):
        for fmt, kind in (("OTIS", "z"), ("GOT-netcdf", "z"), ("TMD3", "z"), ("OTIS", "uv"), ("ATLAS-netcdf", "z")):
            lay = ["cats", "psn", "reg", "regg", "regw", "pix"][int(rng.integers(6))]
            if not mgen.allowed(fmt, lay):
                lay = "reg"
            # one wet node
            n = mgen.LAYOUTS[lay]["W"]
            wet = np.zeros((5, n), bool)
            x0, y0 = int(rng.integers(2, n - 2)), 2
            wet[y0, x0] = True
            w = W.build(rng, fmt, kind, lay, cons=("m2",), W=n, H=5, wet=wet, cwet=False)
            model = W.load(w)
            t = list(w["mods"])[0]
            flat = w["ds"].proj != "EPSG:4326"
            for k in range(8):
                cut = float(rng.choice(geo[3:7] if not flat else pla[2:4]))
                # beside it, in one direction or in both
                r = [int(v) for v in rng.integers(-9, 10, size=2)]
                if k % 2:
                    r[int(rng.integers(2))] = int(rng.integers(-1, 2))
                p = [4 * x0 + r[0], 4 * y0 + r[1]]
                if flat:
                    p = [v // 2 * 2 + 1 for v in p]
                p = [min(max(p[0], 0), 4 * (n - 1)), min(max(p[1], 0), 16)]
                if flat:
                    p = [min(max(p[0], 1), 4 * (n - 1) - 1), min(max(p[1], 1), 15)]
                W.ask(w, model, t, [tuple(p)], path=str(rng.choice(["extract", "read"])), method=str(rng.choice(methods)), extrapolate=True, cutoff=cut, key=f"{fmt}|{kind}|{t}|{lay}|alone|cut{cut}|{r}")
    W.validate(mgen.canaries(W.recs, rng, 10))
    ctx.assumptions += ["nearest cells on the Earth are decided up to 2 percent of the squared distance (the flattening is not modelled) and cutoffs up to 3 percent",
                        "points outside of the domain of a model stay invalid, extrapolated or not"]
