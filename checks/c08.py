"""C08: cropped models answer like whole ones"""
import numpy as np
import models as M, mgen
from vlib import *
from c07 import cfg


def main(ctx):
    rng = ctx.rng
    wins = ctx.model("ReaderMC", cfg(48, 8, "each", "TRUE", ls=5, qs=7 if not ctx.thorough else 1))
    ctx.refute("ReaderMC", cfg(24, 0, "each", ls=4), name="window without the surrounding nodes")
    ctx.refute("ReaderMC", cfg(24, 8, "crop keeps convention", ls=4), name="cropping keeps the convention of the queries")
    W = mgen.World(ctx)
    methods = ["spline", "bilinear", "linear", "nearest"]
    per = {}
    for c in wins:
        g = c["g"]
        per.setdefault((g["W"], g["p0"], g["dup"]), []).append(c)
    nper = 12 if ctx.thorough else 3
    step = 7.5
    fmts = [(f, k) for k in ("z", "uv") for f in (M.FORMATS_Z if k == "z" else M.FORMATS_UV)]
    for (w_, p0, dup), cs in sorted(per.items()):
        for f, kind in fmts:
            b = mgen.base(f)
            if w_ < 3 or (dup and b in mgen.OTISLIKE):
                continue
            if not ctx.thorough and rng.random() < 0.35:
                continue
            x0 = p0 * step
            # u grids are staggered: the columns of the scenario are those of z
            w = W.build(rng, f, kind, cons=("m2", "k1"), geom=dict(x0=x0, dx=30.0, dy=30.0, W=w_, H=5, glob=w_ == 12, dup=dup), landp=0.15)
            ds = w["ds"]
            model = W.load(w)
            for _ in range(nper):
                c = cs[int(rng.integers(len(cs)))]
                t = list(w["mods"])[int(rng.integers(len(w["mods"])))]
                meth = str(rng.choice(methods)); path = str(rng.choice(["extract", "read"]))
                crop_case(W, rng, w, model, t, c["lo"] * step, c["hi"] * step, meth, path, f"{f}|{kind}|{t}|W{w_}.p{p0}.d{int(dup)}|{c['lo']}..{c['hi']}|{meth}|{path}")
    # projected grids
    for rep in range((60 if ctx.thorough else 14)):
        f = mgen.OTISLIKE[rep % 3]
        kind = ["z", "uv"][int(rng.integers(2))]
        lay = ["cats", "psn"][rep % 2]
        w = W.build(rng, f, kind, lay, cons=("m2", "k1"), W=8, H=8, landp=0.15)
        model = W.load(w)
        for t in list(w["mods"])[:2]:
            for path in ("extract", "read"):
                proj_case(W, rng, w, model, t, str(rng.choice(methods)), path, f"{f}|{kind}|{t}|{lay}|crop|{path}|{rep}")
    W.validate(mgen.canaries(W.recs, rng, 10))
    ctx.notes["crop windows"] = len(wins)


def crop_case(W, rng, w, model, t, lo, hi, meth, path, key):
    ds = w["ds"]
    oy = ds.y0 - (ds.dy / 2 if t.lower() == "v" else 0)
    ox = ds.origin(t)[0]
    # latitudes of the window, on the quarter lattice of the variable
    ya, yb = sorted(int(v) for v in rng.integers(0, 4 * (ds.H - 1) + 1, size=2))
    if rng.random() < 0.2:
        yb = ya
    bounds = [lo, hi, oy + ya * ds.dy / 4, oy + yb * ds.dy / 4]
    # points of the window (longitudes congruent to the window's, in any convention)
    pts, tr = [], []
    q = ds.dx / 4
    xs = [k for k in range(int(np.ceil((lo - ox) / q - 1e-9)), int(np.floor((hi - ox) / q + 1e-9)) + 1)]
    if not xs:
        return
    for k in sorted(set([0, len(xs) - 1] + [int(v) for v in rng.integers(0, len(xs), size=6)])):
        y = int(rng.integers(ya, yb + 1)) if rng.random() < 0.7 else [ya, yb][int(rng.integers(2))]
        pts.append((xs[k], y))
    lon = np.array([ox + p[0] * q for p in pts])
    mode = int(rng.integers(3))
    if mode == 0:
        # bounds from the points
        bounds_ = None
        tr = 0
        if lon.min() < -180 or lon.max() > 360:
            return
    else:
        bounds_ = bounds
        tr = np.array([int(rng.choice([k for k in (-1, 0, 1) if -180 <= x + 360 * k <= 360] or [0])) for x in lon]) if mode == 1 else 0
    buf = [None, 0, 0.5, 10.0, 45.0, 200.0][int(rng.integers(6))]
    if buf is None and path == "read":
        buf = 0
    if bounds_ is None and path == "read":
        bounds_ = bounds
    if bounds_ is not None and not np.any(bounds_):
        bounds_[1] += 1.0
    W.ask(w, model, t, pts, path=path, method=meth, shift=tr, crop=True, bounds=None if bounds_ is None else [float(v) for v in bounds_], buffer=buf, key=key + f"|buf{buf}")


def proj_case(W, rng, w, model, t, meth, path, key):
    ds = w["ds"]
    ox, oy = ds.origin(t)
    xa, xb = sorted(int(v) // 2 * 2 + 1 for v in rng.integers(0, 4 * (ds.W - 1) - 1, size=2))
    ya, yb = sorted(int(v) // 2 * 2 + 1 for v in rng.integers(0, 4 * (ds.H - 1) - 1, size=2))
    pts = [(int(x) // 2 * 2 + 1, int(y) // 2 * 2 + 1) for x, y in zip(rng.integers(xa, xb + 1, size=6), rng.integers(ya, yb + 1, size=6))]
    pts = [(min(max(x, xa), xb), min(max(y, ya), yb)) for x, y in pts]
    b = [ox + xa * ds.dx / 4, ox + xb * ds.dx / 4, oy + ya * ds.dy / 4, oy + yb * ds.dy / 4]
    if rng.random() < 0.4 and path == "extract":
        b = None
    buf = [None, 0, 1.0, 10.0][int(rng.integers(4))]
    if buf is None and path == "read":
        buf = 0
    W.ask(w, model, t, pts, path=path, method=meth, crop=True, bounds=b, buffer=buf, key=key + f"|buf{buf}")
