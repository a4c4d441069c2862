"""C16: model files that are written read back as the same content"""
import gzip
import importlib.util
import os
import pathlib
import sys
import shutil
import struct
import numpy as np
from vlib import *
import models as M

CFG = "SPECIFICATION Spec\nINVARIANTS Kept Whole Marks Emit\nCHECK_DEADLOCK FALSE\nCONSTANTS\n Design = \"%s\"\n EmitOn = %s\n MaxLen = %d\n BigOn = %s\n"
TCFG = "SPECIFICATION TraceSpec\nPOSTCONDITION Consumed\nCHECK_DEADLOCK FALSE\n"
NONE = -999999999


# -- words ---------------------------------------------------------------------
def words(path, blank=False):
    """words of a file; blank: not-a-number stands for the nothing of a dry node"""
    b = pathlib.Path(path).read_bytes()
    out = []
    for k in range(0, len(b) - 3, 4):
        w = b[k:k + 4]
        if blank and np.isnan(struct.unpack(">f", w)[0]) and w[0] in (0x7f, 0xff) and w[1:] == b"\xc0\0\0":
            w = bytes(4)
        i, f = struct.unpack(">i", w)[0], struct.unpack(">f", w)[0]
        f = int(8 * f) if np.isfinite(f) and abs(f) < 1e7 and 8 * f == int(8 * f) else NONE
        s = w.decode("latin1") if all(32 <= ch < 127 for ch in w) else ""
        out.append([i if abs(i) < 9e8 else NONE, f, s])
    if len(b) % 4:
        out.append([NONE, NONE, ""])
    return out


def pack(ws):
    return b"".join(struct.pack(">i", v) if k == "i" else struct.pack(">f", v / 8.0) if k == "f" else v.encode() for k, v in ws)


# -- contents ------------------------------------------------------------------
class Content:
    """arrays of a content, as a user holds them between two formats"""
    def __init__(self, c):
        ny, nx = c["ny"], c["nx"]
        self.uv = c["uv"]
        self.xlim, self.ylim, self.dt = np.array(c["xlim"]) / 8.0, np.array(c["ylim"]) / 8.0, c["dt"] / 8.0
        self.iob = np.array(c["iob"], dtype=int).reshape(-1, 2)
        self.dep = np.array(c["dep"], dtype=float).reshape(ny, nx)
        self.wet = np.array(c["wet"], dtype=int).reshape(ny, nx)
        self.cons = list(c["cons"])
        v = np.array(c["val"], dtype=float).reshape(len(self.cons), ny, nx, 4 if self.uv else 2)
        self.val = {t: v[..., 2 * k] + 1j * v[..., 2 * k + 1] for k, t in enumerate("uv" if self.uv else "z")}
        self.axes()

    def axes(self):
        ny, nx = self.dep.shape
        dx, dy = (self.xlim[1] - self.xlim[0]) / nx, (self.ylim[1] - self.ylim[0]) / ny
        self.x = self.xlim[0] + dx * (np.arange(nx) + 0.5)
        self.y = self.ylim[0] + dy * (np.arange(ny) + 0.5)


def orders(rng, a, dtype):
    """the same array in another memory layout or byte order"""
    a = np.asarray(a).astype(dtype)
    k = int(rng.integers(5))
    if k == 1:
        return np.asfortranarray(a)
    if k == 2:
        return a.astype(a.dtype.newbyteorder(">"))
    if k == 3 and a.ndim >= 1:
        b = np.zeros(tuple(2 * n for n in a.shape), dtype=a.dtype)
        v = b[tuple(slice(None, None, 2) for _ in a.shape)]
        v[...] = a
        return v
    if k == 4:
        return a.astype({"f": np.float32, "c": np.complex64, "i": np.int32}.get(a.dtype.kind, a.dtype))
    return a


class Watch:
    """the caller's arrays"""
    def __init__(self):
        self.kept = []

    def __call__(self, a):
        self.kept.append((a, a.copy() if hasattr(a, "copy") else list(a)))
        return a

    def clean(self):
        for a, b in self.kept:
            if isinstance(a, np.ma.MaskedArray):
                if not (np.array_equal(a.data, b.data, equal_nan=True) and np.array_equal(np.ma.getmaskarray(a), np.ma.getmaskarray(b)) and a.dtype == b.dtype):
                    return False
            elif isinstance(a, np.ndarray):
                if not (np.array_equal(a, b, equal_nan=a.dtype.kind in "fc") and a.dtype == b.dtype):
                    return False
            elif a != b:
                return False
        return True


def lims(rng, a):
    a = np.asarray(a)
    return [a.astype(">f4"), a.astype(np.float64), a.astype(np.float32), [float(v) for v in a]][int(rng.integers(4))]


def ints(rng, a):
    a = np.asarray(a)
    return [a.astype(">i4"), a.astype(np.int64), a.astype(np.int8) if a.size and np.abs(a).max() < 100 else a.astype(np.int32), a.astype(np.int32)][int(rng.integers(4))]


def maybe_gz(rng, path):
    if rng.random() < 0.35:
        p = pathlib.Path(str(path) + ".gz")
        with gzip.open(p, "wb") as f:
            f.write(path.read_bytes())
        return p, dict(compressed=True)
    return path, {}


def stack(t, per):
    return np.array([np.ma.filled(a, 0) if np.ma.isMA(a) else a for a in per])


def through_otis(rng, d, X, split, recs, note, W):
    from pyTMD.io import OTIS
    g = d / "grid"
    OTIS.output_otis_grid(str(g) if rng.random() < 0.3 else g, W(lims(rng, X.xlim)), W(lims(rng, X.ylim)), W(orders(rng, X.dep, np.float64)),
                          W(ints(rng, X.wet)), W(ints(rng, X.iob)) if len(X.iob) else [np.zeros((0, 2), ">i4"), []][int(rng.integers(2))], float(X.dt))
    note("grid words", words=words(g))
    files = []
    V, dry = hide(rng, X, {t: np.moveaxis(X.val[t], 0, -1) for t in X.val})
    groups = [[k] for k in range(len(X.cons))] if split else [list(range(len(X.cons)))]
    for ks in groups:
        f = d / f"con{ks[0]}"
        names = [X.cons[k] for k in ks]
        A = {t: W(V[t][..., ks] if np.ma.isMA(V[t]) else orders(rng, V[t][..., ks], np.complex128)) for t in X.val}
        if X.uv:
            OTIS.output_otis_transport(f, A["u"], A["v"], W(lims(rng, X.xlim)), W(lims(rng, X.ylim)), W(names))
        else:
            OTIS.output_otis_elevation(f, A["z"], W(lims(rng, X.xlim)), W(lims(rng, X.ylim)), W(names))
        note("con words", words=words(f, np.any(dry)), ks=[k + 1 for k in ks])
        files.append(f)
    read_otis(g, files, X)
    return dict(bath=True, iobs=True, extra=all(np.array_equal(a, dry) for t in X.masks for a in X.masks[t]))


def read_otis(g, files, X):
    from pyTMD.io import OTIS
    x, y, hz, mz, iob, dt = OTIS.read_otis_grid(g)
    X.x, X.y, X.dep, X.wet, X.iob, X.dt = x, y, hz, mz, np.asarray(iob).reshape(-1, 2), dt
    nx, ny = len(x), len(y)
    X.xlim = np.array([x[0] * 1.5 - x[1] * 0.5, x[-1] * 1.5 - x[-2] * 0.5]) if nx > 1 else X.xlim
    X.ylim = np.array([y[0] * 1.5 - y[1] * 0.5, y[-1] * 1.5 - y[-2] * 0.5]) if ny > 1 else X.ylim
    cons, val = [], {t: [] for t in X.val}
    for f in files:
        names, nc = OTIS.read_constituents(f)
        for k, n in enumerate(names):
            cons.append(n)
            if X.uv:
                u, v = OTIS.read_otis_transport(f, k); val["u"].append(u); val["v"].append(v)
            else:
                val["z"].append(OTIS.read_otis_elevation(f, k))
    X.cons = cons
    X.masks = {t: [np.ma.getmaskarray(a) for a in val[t]] for t in val}
    X.val = {t: stack(t, val[t]) for t in val}


def hide(rng, X, A):
    """dry nodes masked, in some contents that have nothing there; A[t]: constituents last"""
    dry = X.wet == 0
    if not np.any(dry) or any(np.any(A[t][dry]) for t in A) or rng.random() < 0.3:
        return A, np.zeros(dry.shape, bool)
    return {t: np.ma.array(A[t], mask=np.repeat(dry[..., None], A[t].shape[-1], axis=2)) for t in A}, dry


def masked(X, a, dtype=np.complex128):
    m = np.ma.array(np.asarray(a).astype(dtype), mask=X.wet == 0)
    if np.any(m.mask):
        m.data[m.mask] = m.fill_value
    return m


def stagger(X):
    """coordinates of the u and v nodes of a lattice whose z nodes are at x, y"""
    dx = X.x[1] - X.x[0] if len(X.x) > 1 else 1.0
    dy = X.y[1] - X.y[0] if len(X.y) > 1 else 1.0
    return dict(z=(X.x, X.y), u=(X.x - dx / 2, X.y), v=(X.x, X.y - dy / 2))


def through_atlas(rng, d, X, recs, note, W):
    from pyTMD.io import ATLAS
    co = stagger(X)
    fl = [np.float64, np.float32][int(rng.integers(2))]
    g = d / "grid.nc"
    H = {t: (masked(X, X.dep + k, np.float64) if rng.random() < 0.5 else np.where(X.wet == 0, 0.0, X.dep + k).astype(fl)) for k, t in enumerate("zuv")}
    C = {t: [W(np.asarray(a).astype(fl)) for a in co[t]] for t in "zuv"}
    ATLAS.output_netcdf_grid(g, W(H["z"]), W(H["u"]), W(H["v"]), *C["z"], *C["u"], *C["v"])
    g, kw = maybe_gz(rng, g)
    per = {t: [] for t in X.val}; cons = []; own = True
    for k, n in enumerate(X.cons):
        f = d / f"con{k}.nc"
        A = {}
        for t in X.val:
            a = X.val[t][k]
            A[t] = W(masked(X, a) if rng.random() < 0.5 else np.where(X.wet == 0, 0, a).astype([np.complex128, np.complex64][int(rng.integers(2))]))
        if X.uv:
            ATLAS.output_netcdf_transport(f, A["u"], A["v"], *C["u"], *C["v"], n)
        else:
            ATLAS.output_netcdf_elevation(f, A["z"], *C["z"], n)
        # other programs take the coordinates from the files of the constituents
        import netCDF4
        with netCDF4.Dataset(f) as nc:
            own = own and all(np.allclose(nc[f"{a}_{t}"][:], co[t][j], atol=1e-4) for t in X.val for j, a in enumerate(("lon", "lat")))
        f, kc = maybe_gz(rng, f)
        for t in X.val:
            h, c = ATLAS.read_netcdf_file(f, t if rng.random() < 0.6 or t == "z" else t.upper(), **kc)
            per[t].append(h)
        cons.append(c)
    deps = {}
    for k, t in enumerate("zuv"):
        lon, lat, b = ATLAS.read_netcdf_grid(g, t if rng.random() < 0.6 or t == "z" else t.upper(), **kw)
        deps[t] = (np.asarray(lon, float), np.asarray(lat, float), np.where(np.ma.getmaskarray(b), 0, b.data - k), (~np.ma.getmaskarray(b)).astype(int))
    X.val = {t: stack(t, per[t]) for t in per}; X.cons = cons
    ok = own and all(np.array_equal(deps[t][2], deps["z"][2]) and np.array_equal(deps[t][3], deps["z"][3]) for t in "uv")
    ok = ok and all(np.allclose(deps[t][j], co[t][j], atol=1e-4) for t in "uv" for j in (0, 1))
    X.x, X.y, X.dep, X.wet = deps["z"]
    return dict(bath=True, iobs=False, extra=ok)


def through_fes(rng, d, X, recs, note, W):
    from pyTMD.io import FES
    co = stagger(X); off = {}
    per = {}; coords = {}
    for t in X.val:
        per[t] = []
        fl = [np.float64, np.float32][int(rng.integers(2))]
        lon, lat = [W(np.asarray(a).astype(fl)) for a in co[t]]
        for k, n in enumerate(X.cons):
            f = d / f"{t}{k}.nc"
            FES.output_netcdf_file(f, W(masked(X, X.val[t][k])), lon, lat, n, type=t)
            f, kw = maybe_gz(rng, f)
            hc, x, y = FES.read_netcdf_file(f, type=t, version=["FES2014", "FES2022", "EOT20"][int(rng.integers(3))], **kw)
            per[t].append(hc); coords[t] = (np.asarray(x, float), np.asarray(y, float))
    first = "u" if X.uv else "z"
    ok = all(np.array_equal(np.ma.getmaskarray(a), np.ma.getmaskarray(per[first][0])) for t in per for a in per[t])
    ok = ok and all(np.allclose(coords[t][j], co[t][j], atol=1e-4) for t in per for j in (0, 1))
    X.wet = (~np.ma.getmaskarray(per[first][0])).astype(int)
    X.val = {t: stack(t, per[t]) for t in per}
    if not X.uv:
        X.x, X.y = coords["z"]
    return dict(bath=False, iobs=False, extra=ok)


def through_got(rng, d, X, recs, note, W):
    from pyTMD.io import GOT
    per, cons = [], []
    fl = [np.float64, np.float32][int(rng.integers(2))]
    lon, lat = W(np.asarray(X.x).astype(fl)), W(np.asarray(X.y).astype(fl))
    for k, n in enumerate(X.cons):
        f = d / f"got{k}.nc"
        GOT.output_netcdf_file(f, W(masked(X, X.val["z"][k])), lon, lat, n)
        f, kw = maybe_gz(rng, f)
        hc, x, y, c = GOT.read_netcdf_file(f, **kw)
        per.append(hc); cons.append(c)
    ok = all(np.array_equal(np.ma.getmaskarray(a), np.ma.getmaskarray(per[0])) for a in per)
    X.wet = (~np.ma.getmaskarray(per[0])).astype(int)
    X.val = dict(z=stack("z", per)); X.cons = cons; X.x, X.y = np.asarray(x, float), np.asarray(y, float)
    return dict(bath=False, iobs=False, extra=ok)


_script = []


def script():
    if not _script:
        import pyTMD
        p = pathlib.Path(pyTMD.__file__).resolve().parent.parent / "scripts" / "reduce_OTIS_files.py"
        s = importlib.util.spec_from_file_location("vp_reduce", p)
        m = importlib.util.module_from_spec(s); s.loader.exec_module(m)
        _script.append(m)
    return _script[0]


def through_reduce(rng, d, X, r, recs, note, W, lists=False):
    """as a user: files of a named model, and the script"""
    from pyTMD.io import OTIS
    geo = X.geo
    md = d / "md"; md.mkdir()
    name = ["TPXO9.1", "TPXO7.2", "CATS0201", "TPXO9-atlas"][int(rng.integers(4))] if geo else "CATS2008"
    uv = X.uv
    db = M.database()
    main, other = ("current", "elevation") if uv else ("elevation", "current")
    path = lambda kind: (lambda f: [f] if isinstance(f, str) else f)((lambda mf: mf["u"] if isinstance(mf, dict) else mf)(db[kind][name]["model_file"]))
    gp = md / db[main][name]["grid_file"]
    both = rng.random() < 0.5 and db[main][name]["grid_file"] == db[other][name]["grid_file"]
    files = {kind: [md / f for f in path(kind)] for kind in (main, other)}
    if len(files[main]) > 1:
        # one file for each constituent: the others are there with the last one
        both = False
    for f in [gp] + files[main] + files[other]:
        f.parent.mkdir(parents=True, exist_ok=True)
    f4 = lambda a: np.asarray(a).astype(">f4")
    dt = float(X.dt) if geo else -abs(float(X.dt))
    OTIS.output_otis_grid(gp, f4(X.xlim), f4(X.ylim), f4(X.dep), np.asarray(X.wet).astype(">i4"), np.asarray(X.iob).astype(">i4"), dt)
    hc, dry = hide(rng, X, {t: np.moveaxis(X.val[t], 0, -1) for t in X.val})
    # the script takes both kinds when there are both
    nc, nf = len(X.cons), len(files[main])
    groups = [list(range(nc))] if nf == 1 else [[min(k, nc - 1)] for k in range(nf)]
    for f, ks in zip(files[main], groups):
        names = [X.cons[k] for k in ks]
        if uv:
            OTIS.output_otis_transport(f, hc["u"][..., ks], hc["v"][..., ks], f4(X.xlim), f4(X.ylim), names)
            if both:
                OTIS.output_otis_elevation(files[other][0], hc["u"] * 2, f4(X.xlim), f4(X.ylim), names)
        else:
            OTIS.output_otis_elevation(f, hc["z"][..., ks], f4(X.xlim), f4(X.ylim), names)
            if both:
                OTIS.output_otis_transport(files[other][0], hc["z"] * 2, hc["z"] * 3, f4(X.xlim), f4(X.ylim), names)
    src = {p: p.read_bytes() for p in md.rglob("*") if p.is_file()}
    # results of earlier runs stay as they are
    earlier = int(rng.choice([0, 0, 1, 2]))
    name_of = lambda p, k: p.with_name((p.stem if p.suffix in (".out", ".oce") else p.stem + p.suffix) + ".reduced" + (f"_{k}" if k else ""))
    kept = {name_of(p, k): b"earlier" for p in src for k in range(earlier)}
    for p in kept:
        p.write_bytes(b"earlier")
    ny, nx = X.dep.shape
    dx, dy = (X.xlim[1] - X.xlim[0]) / nx, (X.ylim[1] - X.ylim[0]) / ny
    q4 = lambda: float(rng.choice([0.25, 0.4]))
    b = [X.xlim[0] + dx * (r[0] - 1 + 0.5 - q4()), X.xlim[0] + dx * (r[1] - 0.5 + q4()), X.ylim[0] + dy * (r[2] - 1 + 0.5 - q4()), X.ylim[0] + dy * (r[3] - 0.5 + q4())]
    kw = dict(PROJECTION=["4326", "EPSG:4326"][int(rng.integers(2))]) if geo else dict(PROJECTION="+proj=stere +lat_0=-90 +lat_ts=-71 +lon_0=-70 +x_0=0 +y_0=0 +datum=WGS84 +units=km +type=crs")
    if rng.random() < 0.3 and geo:
        kw = {}
    mode = int(rng.choice([0o664, 0o600, 0o755, 0o775]))
    if rng.random() < 0.5:
        # from the command line
        argv = ["reduce_OTIS_files.py", "--directory", str(md), "--tide", name, "--bounds", *map(repr, map(float, b)), "--mode", f"{mode:o}"]
        for v in kw.values():
            argv += ["--projection", v]
        old = sys.argv
        sys.argv = argv
        try:
            script().main()
        finally:
            sys.argv = old
    else:
        script().make_regional_OTIS_files(md, name, BOUNDS=b, MODE=mode, **kw)
    new = {p: name_of(p, earlier) for p in src}
    same = all(p.read_bytes() == v for p, v in [*src.items(), *kept.items()]) and sorted(p for p in md.rglob("*") if p.is_file()) == sorted([*src, *kept, *new.values()])
    extra = same and all((p.stat().st_mode & 0o777) == mode for p in new.values())
    want = X
    if both:
        # the companion holds the same numbers, times 2 (and 3)
        Y = Content.__new__(Content); Y.uv = not X.uv; Y.xlim, Y.ylim = X.xlim, X.ylim
        Y.val = dict.fromkeys("z" if X.uv else "uv")
        read_otis(new[gp], [new[files[other][0]]], Y)
    read_otis(new[gp], [new[f] for f in files[main][:nc if nf > 1 else 1]], X)
    # land of the model is land of its part
    extra = extra and all(np.array_equal(a, (X.wet == 0) & bool(np.any(dry))) for t in X.masks for a in X.masks[t])
    if not geo:
        X.dt = -X.dt if X.dt < 0 else X.dt
    if both:
        if X.uv:
            extra = extra and np.allclose(Y.val["z"], 2 * X.val["u"])
        else:
            extra = extra and np.allclose(Y.val["u"], 2 * X.val["z"]) and np.allclose(Y.val["v"], 3 * X.val["z"])
        extra = extra and Y.cons == X.cons
    return dict(bath=True, iobs=True, extra=bool(extra))


def snapshot(X):
    ks = "uv" if X.uv else "z"
    val = []
    for k in range(len(X.cons)):
        parts = []
        for t in ks:
            a = X.val[t][k]
            parts += [np.real(a).ravel(), np.imag(a).ravel()]
        val.append([[q(v, 1e3) for v in row] for row in np.array(parts, float).T])
    return dict(x=[q(v, 8) for v in X.x], y=[q(v, 8) for v in X.y], cons=[str(c) for c in X.cons], dep=[q(v) for v in np.ravel(X.dep)],
                wet=[int(v) for v in np.ravel(X.wet)], iob=[[int(v) for v in p] for p in np.asarray(X.iob).reshape(-1, 2)], dt=q(X.dt, 8), val=val)


def histories(ctx, cases, recs):
    rng = ctx.rng
    n = 3000 if ctx.thorough else 600
    pick = rng.choice(len(cases), size=min(n, len(cases)), replace=False)
    for j in pick:
        c, hist = cases[j]["c"], cases[j]["hist"]
        X = Content(c)
        X.geo = bool(rng.random() < 0.6) or any(h["f"] not in ("otis", "split", "reduce") for h in hist)
        done = []
        for step, op in enumerate(hist):
            d = ctx.scratch / f"s{j}_{step}"; d.mkdir()
            W = Watch()
            key = f"{j}|" + ">".join(h["f"] for h in hist[:step + 1]) + f"|{'+'.join(c['cons'])}|uv={c['uv']}|nob{len(c['iob'])}"
            # the content as the specification has it before this step
            def note(kind, **kw):
                if not done_cut(done):
                    recs.append(dict(kw, kind=kind, status="ok", msg="", c=c, key=f"{key}|{kind}"))
            if op["f"] in ("otis", "split") and any(len(nm) > 4 for nm in X.cons):
                o = call(through_otis, rng, d, X, op["f"] == "split", recs, lambda *a, **k: None, W)
                recs.append(dict(kind="refused", status="ok", msg=o.msg, raised=o.err == "ValueError", key=key))
                X = X if o.ok is False else X
                shutil.rmtree(d)
                if o.ok:
                    break
                continue
            f = dict(otis=lambda: through_otis(rng, d, X, False, recs, note, W), split=lambda: through_otis(rng, d, X, True, recs, note, W),
                     atlas=lambda: through_atlas(rng, d, X, recs, note, W), fes=lambda: through_fes(rng, d, X, recs, note, W),
                     got=lambda: through_got(rng, d, X, recs, note, W), reduce=lambda: through_reduce(rng, d, X, op["r"], recs, note, W))[op["f"]]
            o = call(f)
            done.append(op)
            r = dict(kind="content", status=o.err or "ok", msg=o.msg, c=c, hist=list(done), got=dict(x=[], y=[], cons=[], dep=[], wet=[], iob=[], dt=0, val=[]), bath=False, iobs=False, clean=W.clean(), tol=1, key=key)
            if o.ok:
                # single precision after binary or netCDF files, amplitude and phase rounding
                r.update(got=snapshot(X), bath=o.value["bath"], iobs=o.value["iobs"])
                r["clean"] = r["clean"] and o.value.get("extra", True)
            recs.append(r)
            shutil.rmtree(d)
            if not o.ok:
                break


def done_cut(done):
    return any(h["f"] in ("reduce", "fes", "got") for h in done)


def invalid(ctx, recs):
    """nodes that are invalid in one constituent stay invalid through binary files"""
    from pyTMD.io import OTIS
    rng = ctx.rng
    lim = np.array([0.0, 40.0], ">f4")
    for j in range(40):
        ny, nx, nc = int(rng.integers(1, 4)), int(rng.integers(1, 4)), int(rng.integers(1, 4))
        names = list(rng.choice(["m2", "s2", "k1", "o1", "m4"], size=nc, replace=False))
        mask = rng.random((ny, nx, nc)) < 0.3
        a = np.ma.array((rng.integers(1, 50, (ny, nx, nc)) + 1j * rng.integers(1, 50, (ny, nx, nc))).astype(np.complex64), mask=mask)
        plain = bool(j % 2)
        give = a.filled(np.nan) if plain else a
        f = ctx.scratch / f"n{j}"
        uv = bool((j // 2) % 2)
        def run():
            if uv:
                OTIS.output_otis_transport(f, give, 2 * give, lim, lim, names)
                return [OTIS.read_otis_transport(f, k) for k in range(nc)]
            OTIS.output_otis_elevation(f, give, lim, lim, names)
            return [(OTIS.read_otis_elevation(f, k),) for k in range(nc)]
        o = call(run)
        r = dict(kind="nan", status=o.err or "ok", msg=o.msg, mask=[], want=[], same=True, key=f"invalid|{'nan' if plain else 'masked'}|uv={uv}|{ny}x{nx}x{nc}")
        if o.ok:
            r["want"] = [[bool(v) for v in mask[..., k].ravel()] for k in range(nc) for _ in range(1 + uv)]
            r["mask"] = [[bool(v) for v in np.ma.getmaskarray(h).ravel()] for t in o.value for h in t]
            r["same"] = all(np.array_equal(h.data[~mask[..., k]], (m + 1) * a.data[..., k][~mask[..., k]]) for k, t in enumerate(o.value) for m, h in enumerate(t))
        recs.append(r)


def everyname(ctx, recs):
    """every constituent of the tables through every writer that names constituents in the file"""
    from pyTMD.io import OTIS, ATLAS, GOT, constituents
    import pyTMD.arguments as A
    rng = ctx.rng
    names = [c for c in A._constituents_table.keys()] if hasattr(A, "_constituents_table") else None
    names = names or json_names()
    X = np.arange(2.0); h = np.ma.array(np.full((2, 2), 3 - 4j), mask=np.array([[0, 1], [0, 0]], bool))
    lim = np.array([0.0, 2.0])
    for n in names:
        def one():
            out = []
            f = ctx.scratch / f"name{len(recs)}.nc"
            ATLAS.output_netcdf_elevation(f, h, X, X, n); out.append(ATLAS.read_netcdf_file(f, "z")[1])
            ATLAS.output_netcdf_transport(f, h, h, X, X, X, X, n); out.append(ATLAS.read_netcdf_file(f, "u")[1])
            if len(n) <= 4:
                f = ctx.scratch / "name.bin"
                OTIS.output_otis_elevation(f, h.filled(0)[..., None], lim, lim, [n]); out.append(OTIS.read_constituents(f)[0][0])
            return out
        o = call(one)
        got = o.value if o.ok else []
        recs.append(dict(kind="nan", status=o.err or "ok", msg=o.msg, mask=[], want=[], same=all(g == n for g in got), key=f"name|{n}|{sorted(set(got))}"))
        # GOT files name the constituent in the text of an attribute
        f = ctx.scratch / f"got{len(recs)}.nc"
        o = call(lambda: (GOT.output_netcdf_file(f, h, X, X, n), GOT.read_netcdf_file(f)[3])[1])
        p = call(constituents.parse, n.upper())
        if p.ok:      # names that no file can name are refused when reading
            recs.append(dict(kind="nan", status=o.err or "ok", msg=o.msg, mask=[], want=[], same=o.ok and o.value == p.value, key=f"name GOT|{n}|{o.value if o.ok else ''}"))


def json_names():
    import pyTMD.arguments as A, json as J
    t = J.loads(pathlib.Path(A._coefficients_table).read_text())
    return sorted(t)


def main(ctx):
    ctx.model("StoreMC", CFG % ("sound", "FALSE", 2, "TRUE"), name="formats keep the content (depth 2)")
    if ctx.thorough:
        ctx.model("StoreMC", CFG % ("sound", "FALSE", 3, "TRUE"), name="formats keep the content (depth 3)")
    cases = ctx.model("StoreMC", CFG % ("sound", "TRUE", 3 if ctx.thorough else 2, "TRUE"), name="histories of formats")
    for dsg in ("depth twice", "parts apart", "first file", "four letters"):
        ctx.refute("StoreMC", CFG % (dsg, "FALSE", 2, "TRUE"), name=dsg)
    recs = []
    histories(ctx, cases, recs)
    invalid(ctx, recs)
    everyname(ctx, recs)
    can = []
    for r in recs:
        if r["kind"] == "content" and r["status"] == "ok" and not any(x["kind"] == "content" for x in can):
            g = dict(r["got"], wet=[1 - v for v in r["got"]["wet"]]); can.append(dict(r, got=g))
        if r["kind"] == "con words" and not any(x["kind"] == "con words" for x in can):
            w = [list(v) for v in r["words"]]; w[-2][1] += 8; can.append(dict(r, words=w))
    ctx.validate("StoreTrace", recs, canaries=can, cfg=TCFG)
    ctx.assumptions += ["wet nodes hold nonzero values (zero is land in these formats)", "OTIS binary names have at most four characters (longer ones must be refused)"]
