"""C05: elevations and currents of the drivers, cell by cell"""
import json
import numpy as np
import drivers as D, models as M, mgen
from vlib import *

CFG = "SPECIFICATION Spec\nINVARIANTS Placed TimesAgree Emit\nCHECK_DEADLOCK FALSE\nCONSTANTS\n Design = \"%s\"\n EmitOn = %s\n"
NPT = 8
ORDINAL = {}


def project(epsg, lon, lat):
    import pyproj
    c = pyproj.CRS.from_user_input(int(epsg) if isinstance(epsg, str) and epsg.isdigit() else epsg)
    if c.is_geographic:
        return lon, lat
    return pyproj.Transformer.from_crs(4326, c, always_xy=True).transform(lon, lat)


class Place:
    """a model with a pool of points, and the values of single points at single instants"""
    def __init__(self, W, rng, fmt, kind, layout, cons, refs):
        import pyTMD.predict as P
        self.fmt, self.kind = fmt, kind
        self.w = W.build(rng, fmt, kind, layout, cons=cons, landp=0.12, H=5)
        ds = self.w["ds"]; self.ds = ds
        self.defn = dict(self.w["definition"], compressed=self.w["gz"])
        # (a definition may have its own minor constituents)
        nth = ORDINAL[kind] = ORDINAL.get(kind, int(rng.integers(36))) + 1
        if nth % 2:
            self.defn["minor"] = [["q1", "2n2"], ["mu2", "rho1", "l2", "eta2"]][int(rng.integers(2))]
        self.file = self.w["dir"] / "definition.json"
        self.file.write_text(json.dumps(self.defn))
        self.model = W.load(self.w)
        self.types = ["z"] if kind == "z" else ["u", "v"]
        t0 = self.types[0]
        # a lattice product (for grids given by axes) of 3 x 3 points off the lattice lines
        self.meth = str(rng.choice(["spline", "bilinear", "linear", "nearest"]))
        self.extrap = bool(rng.random() < 0.25)
        # (of a few such products, one with most points at sea in every constituent, and some on land)
        best = -1
        for _ in range(8):
            xs = sorted(int(v) * 2 + 1 for v in rng.choice(2 * (ds.W - 1), size=3, replace=False))
            ys = sorted(int(v) * 2 + 1 for v in rng.choice(2 * (ds.H - 1), size=3, replace=False))
            pts = [(x, y) for y in ys for x in xs]
            lonlat = M.lonlat(ds, "z", pts, 0)
            wet = 0
            for t in self.types:
                o = call(self.model.value.extract_constants, *lonlat, type=t, method=self.meth, extrapolate=self.extrap, cutoff=np.inf) if self.model.ok else Outcome(None, "load")
                if o.ok:
                    wet += int(np.sum(~np.any(np.ma.getmaskarray(o.value[0]), axis=1)))
            if min(wet, 7 * len(self.types)) > best:
                best, self.pts, self.lonlat = min(wet, 7 * len(self.types)), pts, lonlat
        # configurations in turn, so that every correction and every way to choose the minor constituents occurs
        self.configs = []
        for j in range(3):
            n = nth + j
            c = dict(CORRECTIONS=[None, "TMD3", "GOT", "OTIS", "FES", None, "ATLAS", "netcdf", "perth3"][(nth + 3 * j) % 9], INFER_MINOR=n % 4 > 0)
            if n % 4 > 1:
                c["MINOR_CONSTITUENTS"] = ["2n2", "mu2", "q1", "l2"] if n % 4 == 2 else ["rho1", "eta2", "2q1"]
            self.configs.append(c)
        self.refs = {}
        for t in self.types:
            tabs = [[] for _ in self.configs]
            self.refs[t] = len(refs); refs.extend(tabs)
            for k in range(len(self.pts)):
                m = M.load(self.w["definition"], self.w["gz"]) if self.model.ok else None
                o = call(m.extract_constants, self.lonlat[0][k:k + 1], self.lonlat[1][k:k + 1], type=t, method=self.meth, extrapolate=self.extrap, cutoff=np.inf) if m else Outcome(None, "load")
                for tab, c in zip(tabs, self.configs):
                    tab.append([self.single(P, m, o, i, c) for i in range(len(D.INSTANTS) - 1)])

    def single(self, P, m, o, i, config):
        if not o.ok:
            return dict(v=False, val=0)
        amp, ph, c = o.value
        hc = amp * np.exp(-1j * ph * np.pi / 180)
        if np.any(np.ma.getmaskarray(amp)):
            return dict(v=False, val=0)
        ts = D.timescale_at(i)
        corr = config["CORRECTIONS"] or m.corrections
        dt = np.zeros(1) if corr in ("OTIS", "ATLAS", "TMD3", "netcdf") else ts.tt_ut1
        v = P.time_series(ts.tide, hc, c, deltat=dt, corrections=corr).data[0]
        if config["INFER_MINOR"]:
            mi = call(P.infer_minor, ts.tide, hc, c, deltat=dt, corrections=corr, minor=config.get("MINOR_CONSTITUENTS") or self.defn.get("minor"))
            v = v + (mi.value.data[0] if mi.ok else np.nan)
        return dict(v=True, val=q(v, 1e5))


def request(ctx, W, recs, P, req, rng, pyTMD, key):
    lay, dims = req["layout"], list(req["dims"])
    ds = P.ds
    epsg = D.EPSGS[int(rng.integers(len(D.EPSGS)))] if rng.random() < 0.5 else 4326
    geo_in = "4326" in str(epsg) or "longlat" in str(epsg)
    kw = {}
    if lay == "grid" and geo_in and ds.proj == "EPSG:4326" and dims[0] != dims[1] and max(dims[:2]) <= 3 and rng.random() < 0.7:
        # by its axes
        jy = rng.permutation(3)[:dims[0]]; jx = rng.permutation(3)[:dims[1]]
        ix = [int(3 * a + b) for a in jy for b in jx]
        x = np.array([P.lonlat[0][b] for b in jx]); y = np.array([P.lonlat[1][3 * a] for a in jy])
    else:
        ix = [int(v) for v in rng.integers(0, len(P.pts), size=D.npoints(lay, dims))]
        lon, lat = P.lonlat[0][ix].copy(), P.lonlat[1][ix].copy()
        if geo_in and ds.proj == "EPSG:4326":
            lon = lon + 360.0 * W.turns(rng, P.w, "z", [P.pts[i] for i in ix])
        if not geo_in and ((epsg in (3031, "EPSG:3031") and lat.max() > 55) or (epsg == 3413 and lat.min() < -55) or np.abs(lat).max() > 84 or
                           (isinstance(epsg, str) and "laea" in epsg and ds.y0 < -60)):
            epsg, geo_in = 4326, True
        x, y = project(epsg, lon, lat)
        x, y = np.array(x, float), np.array(y, float)
        if lay == "grid":
            x, y = x.reshape(dims[:2]), y.reshape(dims[:2])
    tix = [int(v) for v in rng.integers(0, len(D.INSTANTS) - 1, size=D.ninst(lay, dims))]
    dt, epoch, std = D.times(req, tix)
    spell = D.SPELL[lay][req["spell"]]
    if spell is None and not D.auto_ok(lay, dims, x, y, dt):
        spell = lay
    if np.size(x) == 1 and lay != "grid" and rng.random() < 0.4:
        x, y = float(np.ravel(x)[0]), float(np.ravel(y)[0])
    if lay == "drift" and rng.random() < 0.3 and np.ndim(x):
        x, y = list(x), list(y)
    if req["std"] != "datetime" and rng.random() < 0.3:
        std = std.lower() if rng.random() < 0.5 else std.capitalize() if std != "UTC" else "Utc"
    fill = float([np.nan, -9999.0, 1e20][int(rng.integers(3))])
    if rng.random() < 0.3 and not P.extrap:
        kw["CROP"] = True
        if ds.proj == "EPSG:4326" and rng.random() < 0.5:
            kw.update(BOUNDS=[-180.0, 360.0, -90.0, 90.0])
    definition = [P.file, str(P.file), "io"][int(rng.integers(3))]
    nc = int(rng.integers(len(P.configs)))
    cfg = {k: v for k, v in P.configs[nc].items() if v is not None}
    def fn(x, y, dt, fill):
        d = definition
        if d == "io":
            import io
            d = io.BytesIO(json.dumps(P.defn).encode())
        a = dict(DEFINITION_FILE=d, EPSG=epsg, EPOCH=epoch, TYPE=spell, TIME=std, METHOD=P.meth, EXTRAPOLATE=P.extrap, CUTOFF=np.inf, FILL_VALUE=fill, **cfg, **kw)
        if P.kind == "z":
            if rng.random() < 0.2:
                return pyTMD.compute.corrections(x, y, dt, CORRECTION=["ocean", "load", "Ocean"][int(rng.integers(3))], **a)
            if rng.random() < 0.1:
                return pyTMD.compute_tide_corrections(x, y, dt, **a)
            return pyTMD.compute.tide_elevations(x, y, dt, **a)
        return pyTMD.compute.tide_currents(x, y, dt, **a)
    x0, y0, t0 = [np.array(v, copy=True) for v in (x, y, dt)]
    import pathlib
    o = call(fn, x, y, dt, fill)
    kept = bool(np.array_equal(x0, x) and np.array_equal(y0, y) and np.array_equal(t0, dt))
    for t in P.types:
        r = dict(layout=lay, dims=dims, shape=[], status=o.err or "ok", msg=o.msg, ref=P.refs[t] + nc, mod=P.w["mods"][t], meth=P.meth, extrap=P.extrap, cut=-1,
                 pix=[i + 1 for i in ix], tix=[i + 1 for i in tix], pts=[list(shift_of(ds, t, P.pts[i])) for i in ix], tol=3, kept=kept, fillok=True, v=[], val=[],
                 key=f"{key}|{t}|{lay}|{dims}|{spell}|{std}|{epoch[0]}|{epsg}|{P.meth}|x{int(P.extrap)}|{cfg}|{sorted(kw)}")
        recs.append(r)
        if o.ok:
            a = o.value if P.kind == "z" else o.value[t]
            r["shape"] = [int(n) for n in np.shape(a)]
            r["v"], r["val"] = D.flat(a, 1e5)
            r["fillok"] = D.fill_ok(a, fill)


def shift_of(ds, t, p):
    oz, ot = ds.origin("z"), ds.origin(t)
    return int(round(p[0] + (oz[0] - ot[0]) / ds.dx * 4)), int(round(p[1] + (oz[1] - ot[1]) / ds.dy * 4))


def main(ctx):
    import pyTMD, pyTMD.compute, pyTMD.spatial
    rng = ctx.rng
    reqs = ctx.model("DriverMC", CFG % ("sound", "TRUE"), name="loops of the drivers over every small request")
    for d in ("transposed", "one instant"):
        ctx.refute("DriverMC", CFG % (d, "FALSE"), name=d)
    W = mgen.World(ctx)
    refs, recs = [], []
    consets = [("m2", "k1", "s2", "o1", "n2", "p1", "q1", "k2"), ("m2", "s2", "n2", "o1", "k1"), ("m2", "k1", "mf", "s2", "k2", "mm", "q1", "o1"), ("q1", "o1", "p1", "k1", "n2", "m2", "s2", "k2", "mf", "mm")]
    n = 4000 if ctx.thorough else 420
    pick = rng.choice(len(reqs), size=min(n, len(reqs)), replace=False)
    fams = [("z", f) for f in M.FORMATS_Z] + [("uv", f) for f in M.FORMATS_UV]
    places = {}
    per = max(1, n // (len(fams) * (4 if ctx.thorough else 1)))
    for j, i in enumerate(pick):
        kind, fmt = fams[(j // per) % len(fams)]
        if j % per == 0:
            lays = [l for l in mgen.LAYOUTS if mgen.allowed(fmt, l)]
            P = Place(W, rng, fmt, kind, lays[int(rng.integers(len(lays)))], consets[int(rng.integers(len(consets)))], refs)
            ctx.notes["worlds"] = ctx.notes.get("worlds", 0) + 1
        request(ctx, W, recs, P, reqs[i], rng, pyTMD, f"{fmt}|{kind}|{P.w['layout']}")
    can = []
    good = [r for r in recs if r["status"] == "ok" and any(r["v"])]
    for k in range(8):
        r = json.loads(json.dumps(jsonable(good[int(rng.integers(len(good)))])))
        i = [a for a, v in enumerate(r["v"]) if v][0]
        if k % 4 == 0:
            r["val"][i] += 500000
        elif k % 4 == 1:
            r["v"][i] = False
        elif k % 4 == 2:
            r["fillok"] = False
        else:
            r["shape"] = r["shape"] + [1]
        can.append(r)
    # the layout told from the sizes alone
    sizes = [(a, b, c) for a in range(1, 9) for b in range(1, 9) for c in range(1, 9)] + [tuple(int(v) for v in rng.integers(1, 40, size=3)) for _ in range(300)] + [(int(a), int(a), int(b)) for a, b in rng.integers(1, 40, size=(100, 2))]
    for a, b, c in sizes:
        for deep in (False, True):
            x, y = (np.zeros((a, 1)), np.zeros((b, 1))) if deep else (np.zeros(a), np.zeros(b))
            o = call(pyTMD.spatial.data_type, x, y, np.zeros(c))
            recs.append(dict(sizes=[a, b, c], deep=deep, status="ok", got=o.value if o.ok else "unknown" if o.err == "ValueError" else o.err, key=f"sizes|{a}|{b}|{c}|{deep}"))
    f1, f2 = ctx.scratch / "models.json", ctx.scratch / "refs.json"
    f1.write_text(json.dumps(W.mods)); f2.write_text(json.dumps(refs))
    ctx.validate("DriverTrace", recs, canaries=can, env={"MODELS": f1, "REFS": f2})
    ctx.assumptions += ["a grid given by axes of equal length is ambiguous and is given by two-dimensional coordinates instead",
                        "instants at least 90 minutes from a leap second; the other standards count every second since the epoch"]
