"""C07: longitude conventions and the seam of global grids"""
import numpy as np
import models as M, mgen
from vlib import *

LAYS = ["pix", "node", "west", "westn", "dup", "dupw", "reg", "regw", "regg", "wide", "pac"]
EXTRA = dict(wide=dict(x0=-170.0, dx=10.0, dy=10.0, W=33, glob=False), pac=dict(x0=120.0, dx=20.0, dy=20.0, W=9, glob=False))


def cfg(P, pad, design, emit="FALSE", ls=3, qs=1):
    return (f"SPECIFICATION Spec\nINVARIANTS Lawful Contiguous Emit\nCHECK_DEADLOCK FALSE\nCONSTANTS P = {P} Pad = {pad} "
            f"Design = \"{design}\" EmitOn = {emit} LoStep = {ls} QStep = {qs}\n")


def main(ctx):
    rng = ctx.rng
    ctx.model("ReaderMC", cfg(24, 8, "each", ls=4, qs=1) if not ctx.thorough else cfg(48, 8, "each", ls=3, qs=1), workers=4)
    ctx.refute("ReaderMC", cfg(24, 8, "half turn", ls=6), name="wrap by half a turn")
    W = mgen.World(ctx)
    methods = ["spline", "bilinear", "linear", "nearest"]
    reps = 5 if ctx.thorough else 1
    for rep in range(reps):
        for kind in ("z", "uv"):
            for fmt in (M.FORMATS_Z if kind == "z" else M.FORMATS_UV):
                for lay in LAYS:
                    if not mgen.allowed(fmt, lay):
                        continue
                    b = mgen.base(fmt)
                    if not ctx.thorough and fmt in ("FES-netcdf:FES2012", "FES-netcdf:FES2022", "FES-netcdf:HAMTIDE11", "FES-ascii:FES1999", "OTIS-list") and rng.random() < 0.7:
                        continue
                    w = W.build(rng, fmt, kind, lay, cons=("m2", "k1"), geom=EXTRA.get(lay), H=4, landp=0.15)
                    ds = w["ds"]
                    model = W.load(w)
                    for t in (list(w["mods"]) if ctx.thorough else list(w["mods"])[:2]):
                        for path in ("extract", "read"):
                            for meth in ([str(rng.choice(methods))] if not ctx.thorough else methods):
                                # points around the seam, around the edges, and anywhere
                                n = 4 * ds.W
                                seam = [(int((x + n) % n) if ds.glob else int(x), int(rng.integers(0, 4 * (ds.H - 1) + 1))) for x in rng.integers(-6, 7, size=8)]
                                edge = [(int(x), int(rng.integers(0, 4 * (ds.H - 1) + 1))) for x in rng.integers(n - 8, n + 4, size=5)] if not ds.glob else []
                                pts = seam + edge + W.points(rng, w, 6)
                                tr = W.turns(rng, w, t, pts)
                                key = f"{fmt}|{kind}|{t}|{lay}|{meth}|{path}"
                                W.ask(w, model, t, pts, path=path, method=meth, shift=tr, key=key)
                                # the same points in their other conventions, and each alone
                                k = int(rng.integers(len(pts)))
                                W.ask(w, model, t, [pts[k]], path=path if path == "extract" else "interp", method=meth, shift=W.turns(rng, w, t, [pts[k]]), key=key + "|alone")
                                W.ask(w, model, t, pts[:4], path=path if path == "extract" else "interp", method=meth, shift=W.turns(rng, w, t, pts[:4]), key=key + "|few")
    W.validate(mgen.canaries(W.recs, rng, 10))
    ctx.assumptions += ["longitudes of queries and windows lie in [-180, 360] and grids start between -180 and 300 degrees east"]
