"""building worlds of synthetic models and asking them, for the checks of the readers"""
import json
import numpy as np
import models as M
from vlib import call, q

OTISLIKE = ("OTIS", "OTIS-list", "TMD3")
LAYOUTS = dict(pix=dict(x0=15.0, dx=30.0, W=12), node=dict(x0=0.0, dx=30.0, W=12), west=dict(x0=-165.0, dx=30.0, W=12),
               westn=dict(x0=-180.0, dx=30.0, W=12), dup=dict(x0=0.0, W=12, dx=30.0, dup=True), dupw=dict(x0=-180.0, W=12, dx=30.0, dup=True),
               reg=dict(x0=280.0, W=6, dx=10.0, dy=10.0, glob=False), regw=dict(x0=-80.0, W=6, dx=10.0, dy=10.0, glob=False),
               regg=dict(x0=-20.0, W=6, dx=10.0, dy=10.0, glob=False),
               rect=dict(x0=15.0, y0=-80.0, dx=30.0, dy=20.0, W=12), rectr=dict(x0=200.0, y0=-50.0, dx=10.0, dy=20.0, W=6, glob=False),
               catsr=dict(x0=100.0, y0=-40.0, dx=8.0, dy=16.0, W=6, glob=False, proj="CATS2008"),
               cats=dict(x0=100.0, y0=-40.0, dx=8.0, dy=8.0, W=6, glob=False, proj="CATS2008"),
               psn=dict(x0=500.0, y0=-900.0, dx=8.0, dy=8.0, W=6, glob=False, proj="PSNorth"))


def base(fmt):
    return fmt.split(":")[0]


def allowed(fmt, layout):
    b = base(fmt)
    if LAYOUTS.get(layout, {}).get("proj") and b not in OTISLIKE:
        return False
    if layout.startswith("dup") and b in OTISLIKE:
        return False
    return True


def types_of(fmt, kind):
    if kind == "z":
        return ("z",)
    return ("u", "v") if base(fmt) == "FES-netcdf" else ("u", "v", "U", "V")


class World:
    def __init__(self, ctx):
        self.ctx, self.mods, self.recs = ctx, [], []
        M.fast_crs()

    def build(self, rng, fmt, kind="z", layout="pix", cons=("m2", "k1", "2n2"), unit=None, gz=None, shuffle=True, variable=None, geom=None, flexure=False, **kw):
        """write a random model of a format and load it; the world knows it by type"""
        b = base(fmt)
        geom = dict(LAYOUTS[layout]) if geom is None else dict(geom)
        geom.update(kw)
        geom.setdefault("cwet", b in M.PERFILE or b.startswith("GOT") or b.startswith("FES"))
        if b.startswith("FES") and kind == "uv":
            geom["constdepth"] = 200
        ds = M.DS(rng, cons=list(cons), **geom)
        if flexure:
            ds.flex = rng.choice([50.0, 100.0], size=(ds.H, ds.W)); ds.z = 2 * ds.z
        gz = bool(rng.integers(2)) if gz is None else gz
        gz = gz and fmt in M.GZ
        order = rng.permutation(len(ds.cons)) if shuffle else np.arange(len(ds.cons))
        if unit is None:
            unit = 1.0 if b in OTISLIKE else float(rng.choice([1.0, 100.0]))
        d = self.ctx.scratch / f"model{len(self.mods)}"
        definition = M.write(ds, d, fmt, kind, gz, order, unit=unit, variable=variable)
        w = dict(ds=ds, fmt=fmt, kind=kind, layout=layout, gz=gz, definition=definition, dir=d, mods={}, cons=[ds.cons[i] for i in order], order=order)
        for t in types_of(fmt, kind):
            md = M.spec_model(ds, t)
            for f in ("re", "im", "cwet"):
                md[f] = [md[f][i] for i in order]
            md["cons"] = w["cons"]
            w["mods"][t] = len(self.mods)
            self.mods.append(md)
        if flexure:
            md = json.loads(json.dumps(self.mods[-1]))
            for f in ("re", "im"):
                md[f] = (np.array(md[f]) * ds.flex / 100).astype(int).tolist()
            w["mods"]["z*"] = len(self.mods)
            self.mods.append(md)
        return w

    def load(self, w):
        return call(M.load, w["definition"], w["gz"])

    def ask(self, w, model, t, pts, **kw):
        """model: outcome of load()"""
        if not model.ok:
            r = dict(kind="ask", mod=w["mods"][t], status="load " + model.err, msg=model.msg, key=kw.get("key", ""))
        else:
            r = M.ask(model.value, w["ds"], w["mods"][t], t, pts, **kw)
        self.recs.append(r)
        return r

    def low(self, w, m, t, pts, meth, key, rng):
        """the functions of a reader module: extraction, and reading once and interpolating, with depths"""
        import importlib
        b = {"TMD3": "OTIS", "OTIS-list": "OTIS"}.get(base(w["fmt"]), base(w["fmt"]))
        lon, lat = M.lonlat(w["ds"], t, pts, 0)
        mf = m.model_file
        if isinstance(mf, dict):
            mf = mf["u"] if b == "OTIS" else mf[t.lower()]
        if b == "OTIS":
            from pyTMD.io import OTIS as R
            a, k = (m.grid_file, mf, m.projection), dict(type=t, grid=m.file_format)
        else:
            from pyTMD.io import ATLAS as R
            a, k = (m.grid_file, mf), dict(type=t, compressed=m.compressed, scale=m.scale)
        def run(x, y):
            return R.extract_constants(x, y, *a, method=meth, **k)
        c = call(R.read_constants, *a, **{kk: v for kk, v in k.items() if kk != "scale"})
        def run2(x, y):
            A, P, D = R.interpolate_constants(x, y, c.value, type=t, method=meth, **({"scale": m.scale} if "scale" in k else {}))
            return A, P, D, list(c.value.fields)
        seen = {}
        for path, f in (("extract", run), ("read", run2), ("one", run2), ("again", run2)):
            split = [list(range(len(pts)))] if path in ("extract", "read") else [[i] for i in range(len(pts))] if path == "one" else [list(range(len(pts)))]
            for ix in split:
                r = dict(kind="ask", mod=w["mods"][t], meth=meth, extrap=False, cut=0, key=key + "|" + path, status="ok", names=[], kept=True, leak=False, pts=[])
                self.recs.append(r)
                o = call(f, lon[ix], lat[ix])
                if not o.ok:
                    r["status"], r["msg"] = o.err, o.msg; continue
                A, P, D, names = o.value
                if np.shape(A) != (len(ix), len(names)) or np.shape(D) != (len(ix),):
                    r["status"] = "Shape"; r["msg"] = str(np.shape(A)) + str(np.shape(D)); continue
                r["names"] = [str(n) for n in names]
                obs, r["leak"] = M.observe(A, P, 1.0, t in ("u", "v"))
                dm = np.ma.getmaskarray(np.ma.array(D)) | ~np.isfinite(np.ma.getdata(D))
                dd = np.ma.getdata(D)
                for j, i in enumerate(ix):
                    seen.setdefault(i, []).append((bool(dm[j]), 0 if dm[j] else q(dd[j], 1000), obs[j]))
                r["pts"] = [dict(x=int(pts[i][0]), y=int(pts[i][1]), v=o_[0], re=o_[1], im=o_[2], dv=not bool(dm[j]), d=0 if dm[j] else q(dd[j], 100)) for j, (i, o_) in enumerate(zip(ix, obs))]
        self.recs.append(dict(kind="same", mod=0, status="ok", clause="SameByAnyPath", same=all(all(v == vs[0] for v in vs) for vs in seen.values()), key=key))

    def points(self, rng, w, n, margin=0, t="z"):
        """lattice points; margin: quarter cells beyond the edges of regional grids"""
        ds = w["ds"]
        hi = 4 * ds.W if ds.glob else 4 * (ds.W - 1)
        xs = rng.integers(-margin if not ds.glob else 0, hi + (margin if not ds.glob else 0) + (0 if ds.glob else 1), size=n)
        ys = rng.integers(-margin, 4 * (ds.H - 1) + 1 + margin, size=n)
        if ds.proj != "EPSG:4326":
            xs = xs // 2 * 2 + 1
            ys = ys // 2 * 2 + 1
            if margin == 0:
                xs = np.minimum(xs, hi - 1); ys = np.minimum(ys, 4 * (ds.H - 1) - 1)
        return [(int(x), int(y)) for x, y in zip(xs, ys)]

    def turns(self, rng, w, t, pts, each=True):
        """random number of turns per point, longitudes staying in [-180, 360]"""
        ds = w["ds"]
        if ds.proj != "EPSG:4326":
            return 0
        lon, _ = M.lonlat(ds, t, pts, 0)
        out = []
        for x in lon:
            c = [k for k in (-2, -1, 0, 1, 2) if -180 <= x + 360 * k <= 360]
            out.append(int(rng.choice(c)))
        return np.array(out)

    def validate(self, canaries=(), chunk=6000, name=None):
        f = self.ctx.scratch / "models.json"
        f.write_text(json.dumps(self.mods))
        for k in range(0, len(self.recs), chunk):
            self.ctx.validate("ModelTrace", self.recs[k:k + chunk], canaries=canaries if k == 0 else (), env={"MODELS": f}, name=name)


def canaries(recs, rng, n=6):
    """corrupted copies of good records: moved values, flipped validity, lost names"""
    out = []
    good = [r for r in recs if r.get("kind") == "ask" and r["status"] == "ok" and any(any(p["v"]) for p in r["pts"])]
    for k in range(n):
        r = json.loads(json.dumps(good[int(rng.integers(len(good)))]))
        ps = [p for p in r["pts"] if any(p["v"])]
        p = ps[int(rng.integers(len(ps)))]
        c = [i for i, v in enumerate(p["v"]) if v][0]
        m = k % 5
        if m == 0:
            p["re"][c] += 20000 if abs(p["re"][c]) < 10000 else 2 * abs(p["re"][c])
        elif m == 1:
            p["im"][c] = -p["im"][c] + (5000 if abs(p["im"][c]) < 100 else 0)
        elif m == 2:
            r["names"] = r["names"][1:] + r["names"][:1]
        elif m == 3:
            r["kept"] = False
        else:
            r["status"] = "KeyError"
        r["key"] = "canary:" + r["key"]
        out.append(r)
    return out


def reorder(r, cons):
    """the answer of a model whose files are found by a pattern, in the order of cons"""
    if r["status"] != "ok" or sorted(r["names"]) != sorted(cons):
        return
    ix = [r["names"].index(c) for c in cons]
    r["names"] = [r["names"][i] for i in ix]
    for p in r["pts"]:
        for f in ("v", "re", "im"):
            p[f] = [p[f][i] for i in ix]
