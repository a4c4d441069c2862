"""C09: histories of calls on one model object"""
import copy, hashlib, json
import numpy as np
import models as M, mgen
from vlib import *

CFG = """SPECIFICATION Spec
INVARIANTS Lawful NeverStale Emit
CHECK_DEADLOCK FALSE
CONSTANTS
  Types = {%s}
  Depth = %d
  Design = "%s"
  EmitOn = %s
"""


def digest(*arrays):
    h = hashlib.sha1()
    for a in arrays:
        if a is None:
            h.update(b"-"); continue
        m = np.ma.getmaskarray(a) if np.ma.isMaskedArray(a) else np.zeros(np.shape(a), bool)
        d = np.where(m, 0, np.nan_to_num(np.ma.getdata(a), nan=-7e7))
        h.update(str(np.shape(a)).encode()); h.update(np.ascontiguousarray(d).tobytes()); h.update(np.ascontiguousarray(m).tobytes())
    return h.hexdigest()


def loaded_digest(model):
    c = getattr(model, "_constituents", None)
    if c is None:
        return ""
    arrays = [c.__dict__.get(k) for k in sorted(c.__dict__) if isinstance(c.__dict__[k], np.ndarray)]
    return ".".join(c.fields) + digest(*arrays)


def definition(model):
    return repr(sorted((k, v) for k, v in model.__dict__.items() if not k.startswith("_constituents")))


def vandalise(held):
    for o in held:
        try:
            if isinstance(o, list):
                o.append("junk"); o.reverse()
            elif np.ma.isMaskedArray(o):
                o.data[...] = -12345.0; o.mask = True
            else:
                o[...] = 77.0
        except (ValueError, TypeError):
            pass


def replay(ctx, W, w, h, rng, key):
    model = W.load(w)
    if not model.ok:
        W.ask(w, model, list(w["mods"])[0], [(1, 1)], key=key)
        return
    m = model.value
    before = definition(m)
    ds = w["ds"]
    held = []
    cached = dict(t=None, node=False)
    deft = "z" if w["kind"] == "z" else None
    window = None
    pool = {t: W.points(rng, w, 10, margin=0 if any(o["win"] for o in h) else 2) for t in w["mods"]}
    for n, o in enumerate(h):
        k = f"{key}|{n}:{o['op']}"
        before_l = loaded_digest(m)
        if o["op"] == "spoil":
            vandalise(held); held = []
            W.recs.append(dict(kind="same", mod=0, status="ok", clause="LoadedKept", same=loaded_digest(m) == before_l, key=k))
            continue
        t = o["t"]
        if t == "default":
            t = cached["t"] or deft
        meth = str(rng.choice(["spline", "bilinear", "linear", "nearest"]))
        kw = {}
        inside = pool[t]
        if o["win"]:
            # a window given by bounds around some points of the pool, in any convention
            lon, lat = M.lonlat(ds, t, pool[t], 0)
            b = [float(lon.min()), float(lon.max()), float(lat.min()), float(lat.max())]
            if ds.proj != "EPSG:4326":
                gx = [ds.origin(t)[0] + ds.dx / 4 * p[0] for p in pool[t]]; gy = [ds.origin(t)[1] + ds.dy / 4 * p[1] for p in pool[t]]
                b = [min(gx), max(gx), min(gy), max(gy)]
            kw = dict(crop=True, bounds=b, buffer=0)
        if o["op"] == "read":
            cc = call(m.read_constants, type=t, append_node=o["node"], **kw)
            cached = dict(t=t, node=o["node"])
            W.recs.append(dict(kind="same", mod=0, status="ok" if cc.ok else cc.err, clause="Names", same=cc.ok and list(cc.value.fields) == w["cons"] + (["node"] if o["node"] else []), key=k))
        else:
            # points in one call, or split over calls, and asked again
            pts = [pool[t][i] for i in rng.permutation(10)]
            ex = bool(rng.random() < 0.3)
            # with a window only the interpolated points are comparable
            ex = ex and not o["win"]
            if o["op"] == "interp":
                ex = ex and cached.get("whole", True)
                args = dict(path="interp")
                node = cached["node"] if cached["t"] == t else False
                if o["t"] != "default":
                    pass
            else:
                args = dict(path="extract", append_node=o["node"], **kw)
                node = o["node"]
            parts = [pts] if rng.random() < 0.5 else [pts[:3], pts[3:4], pts[4:]]
            for p in parts:
                hold = []
                if o["op"] == "interp":
                    r = ask_interp(W, w, m, t, o["t"] == "default", p, meth, ex, node, k, hold, rng)
                else:
                    r = ask_extract(W, w, m, t, p, meth, ex, args, k, hold, rng)
                held += hold
            if o["op"] == "interp":
                if cached["t"] != t:
                    cached = dict(t=t, node=False)
                elif before_l:
                    W.recs.append(dict(kind="same", mod=0, status="ok", clause="LoadedKept", same=loaded_digest(m) == before_l, key=k))
            else:
                W.recs.append(dict(kind="same", mod=0, status="ok", clause="LoadedKept", same=loaded_digest(m) == before_l, key=k))
        if o["op"] == "read":
            cached["whole"] = not o["win"]
        W.recs.append(dict(kind="same", mod=0, status="ok", clause="DefinitionKept", same=definition(m) == before, key=k))


def ask_extract(W, w, m, t, pts, meth, ex, args, k, hold, rng):
    args = dict(args); path = args.pop("path")
    kw = {"append_node": True} if args.pop("append_node") else {}
    return W.ask(w, Outcome(m), t, pts, path=path, method=meth, extrapolate=ex, cutoff=np.inf if ex else None, key=k, hold=hold,
                 shift=W.turns(rng, w, t, pts), **args, **kw)


def ask_interp(W, w, m, t, default, pts, meth, ex, node, k, hold, rng):
    return W.ask(w, Outcome(m), t, pts, path="interp", method=meth, extrapolate=ex, cutoff=np.inf if ex else None, key=k, hold=hold, deftype=default,
                 withnode=node, shift=W.turns(rng, w, t, pts))


def lowlevel(ctx, W, rng, reps):
    """the functions of the reader modules: extraction against reading once, depths included"""
    from pyTMD.io import OTIS, ATLAS, GOT, FES
    for rep in range(reps):
        for fmt, kind in (("OTIS", "z"), ("OTIS", "uv"), ("TMD3", "z"), ("TMD3", "uv"), ("ATLAS-netcdf", "z"), ("ATLAS-netcdf", "uv"), ("ATLAS-compact", "z"), ("ATLAS-compact", "uv")):
            if fmt not in (M.FORMATS_Z if kind == "z" else M.FORMATS_UV):
                continue
            lay = [l for l in mgen.LAYOUTS if mgen.allowed(fmt, l)]
            w = W.build(rng, fmt, kind, lay[int(rng.integers(len(lay)))], cons=("m2", "k1"))
            m = W.load(w)
            if not m.ok:
                W.ask(w, m, list(w["mods"])[0], [(1, 1)], key=f"low|{fmt}|{kind}")
                continue
            m = m.value
            for t in list(w["mods"]):
                meth = ["spline", "bilinear", "linear", "nearest"][int(rng.integers(4))]
                pts = W.points(rng, w, 12, margin=2)
                W.low(w, m, t, pts, meth, f"low|{fmt}|{kind}|{t}|{w['layout']}|{meth}", rng)


def main(ctx):
    rng = ctx.rng
    W = mgen.World(ctx)
    depth = 3
    H = {}
    for kind, types in (("z", '"z"'), ("uv", '"u", "v"'), ("uvUV", '"u", "v", "U"')):
        d = depth if kind != "uvUV" else 2
        H[kind] = ctx.model("SessionMC", CFG % (types, d, "sound", "TRUE"), name=f"histories of {kind} models to depth {d}")
    if ctx.thorough:
        H["z4"] = ctx.model("SessionMC", CFG % ('"z"', 4, "sound", "TRUE"), name="histories of z models to depth 4")
        ctx.model("SessionMC", CFG % ('"u", "v"', 4, "sound", "FALSE"), name="law to depth 4, currents", workers=8)
    for design in ("type blind", "converts in place", "shared names", "returns views"):
        ctx.refute("SessionMC", CFG % ('"u", "v"', 3, design, "FALSE"), name=f"{design} at depth 3")
    n = 1200 if ctx.thorough else 110
    for kind in H:
        pick = rng.choice(len(H[kind]), size=min(len(H[kind]), n if kind != "uvUV" else n // 2), replace=False)
        fams = {"z": M.FORMATS_Z, "z4": M.FORMATS_Z, "uv": M.FORMATS_UV, "uvUV": [f for f in M.FORMATS_UV if not f.startswith("FES")]}[kind]
        worlds = {}
        for j, i in enumerate(pick):
            fmt = fams[j % len(fams)]
            if fmt not in worlds or j % (40 * len(fams)) < len(fams):
                lay = [l for l in mgen.LAYOUTS if mgen.allowed(fmt, l)]
                worlds[fmt] = W.build(rng, fmt, kind[:1] if kind[0] == "z" else "uv", lay[int(rng.integers(len(lay)))], cons=("m2", "k1"))
            h = H[kind][i]["h"]
            replay(ctx, W, worlds[fmt], h, rng, f"{fmt}|{kind}|{worlds[fmt]['layout']}|{i}")
    lowlevel(ctx, W, rng, 12 if ctx.thorough else 2)
    can = mgen.canaries(W.recs, rng, 8) + [dict(kind="same", mod=0, status="ok", clause="LoadedKept", same=False, key="canary")]
    W.validate(can)
    ctx.notes["histories replayed"] = {k: int(min(len(v), n)) for k, v in H.items()}
    ctx.assumptions += ["a window is asked only inside its bounds; extrapolation only from whole grids",
                        "the type of currents has to be named by the first call (the default type of a currents model is a list)"]
