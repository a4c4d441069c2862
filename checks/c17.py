"""C17: spatial data files"""
import copy
import gzip
import io
import pathlib
import numpy as np
from vlib import *

CFG = "SPECIFICATION Spec\nINVARIANTS ReadsWhatWasWritten CallerKeeps Emit\nCHECK_DEADLOCK FALSE\nCONSTANTS\n Design = \"%s\"\n EmitOn = %s\n MaxLen = %d\n"
NOCELL = 777777777
SUFFIX = dict(ascii="csv", yaml="txt", netCDF4="nc", HDF5="h5", GTiff="tif", cog="tif", parquet="parquet")
FILL = dict(neg=-9999.0, zero=0.0, nan=np.nan)


def cells(a, fill=None):
    """numbers in eighths, masked cells by their code"""
    if isinstance(a, np.ma.MaskedArray) or fill is not None:
        m = np.ma.getmaskarray(np.ma.array(a))
    else:
        m = np.zeros(np.shape(a), bool)
    d = np.ma.getdata(a)
    return [NOCELL if m.flat[k] else q(d.flat[k], 8.0) for k in range(np.size(d))]


def same(a, b):
    if isinstance(a, dict):
        return isinstance(b, dict) and list(a) == list(b) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, np.ma.MaskedArray):
        return type(a) is type(b) and a.shape == b.shape and a.dtype == b.dtype and np.array_equal(np.ma.getmaskarray(a), np.ma.getmaskarray(b)) and \
            np.array_equal(a.data, b.data, equal_nan=a.dtype.kind == "f") and np.array_equal(a.fill_value, b.fill_value, equal_nan=a.dtype.kind == "f")
    if isinstance(a, np.ndarray):
        return isinstance(b, np.ndarray) and a.shape == b.shape and a.dtype == b.dtype and np.array_equal(a, b, equal_nan=a.dtype.kind == "f")
    if isinstance(a, (list, tuple)):
        return type(a) is type(b) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return type(a) is type(b) and (a == b or (a != a and b != b))


class Content:
    """what a caller has: arrays, attributes, and what the reader is to find"""
    def __init__(self, rng, abs_, wkt):
        self.rng, self.kind, self.fill = rng, abs_["kind"], abs_["fill"]
        k = self.kind
        small = lambda: int(rng.integers(1, 5))
        n = small()
        if k == "drift":
            shape = (int(rng.integers(1, 8)),)
            nx = ny = nt = shape[0]
        elif k == "grid":
            square = rng.random() < 0.4
            ny, nx, nt = (n, n, n) if square else (small(), small(), small())
            shape = (ny, nx, nt)
        else:
            ns, nt = (n, n) if rng.random() < 0.4 else (small(), small())
            nx = ny = ns
            shape = (ns, nt)
        self.nt = nt
        dt = "f8" if self.fill == "nan" else ["f8", "f8", "f4", "i4", "i2"][int(rng.integers(5))]
        if self.fill == "nan" and rng.random() < 0.3:
            dt = "f4"
        num = lambda s: (rng.integers(1, 4000, s) * rng.choice([-1, 1], s)).astype("f8") / (1 if dt[0] == "i" else 8)
        tok = dict(zero=lambda: 0.0, one=lambda: num(()), two=lambda: num(()), masked=lambda: num(()))
        size = int(np.prod(shape))
        toks = [abs_["cells"][int(j)] for j in rng.integers(3, size=size)]
        if size >= 3:
            for j in range(3):
                toks[int(rng.permutation(size)[0]) if j else 0] = abs_["cells"][j]
        data = np.array([tok[t]() for t in toks]).reshape(shape).astype(dt)
        mask = np.array([t == "masked" for t in toks]).reshape(shape)
        if self.fill:
            self.fv = np.dtype(dt).type(FILL[self.fill])
            if rng.random() < 0.3:
                data[mask] = self.fv
            data = np.ma.array(data, mask=mask, fill_value=self.fv if rng.random() < 0.5 else None)
            if self.fill != "nan" and not mask.any() and rng.random() < 0.3:
                data = data.data
        self.names = [dict(time="time", y="lat", x="lon", data="tide"), dict(time="time", y="y", x="x", data="data"), dict(time="time", y="latitude", x="longitude", data="z")][int(rng.integers(3))]
        N = self.names
        x = 8.0 * np.arange(nx) + int(rng.integers(-100, 100)) if k == "grid" else rng.integers(-1400, 1400, nx) / 8.0
        y = -8.0 * np.arange(ny) + int(rng.integers(-60, 60)) if k == "grid" else rng.integers(-700, 700, ny) / 8.0
        t = rng.integers(0, 8000, nt) / 8.0
        self.out = {N["time"]: t, N["y"]: y, N["x"]: x, N["data"]: data}
        if rng.random() < 0.3:
            self.out = {key: self.out[key] for key in rng.permutation(list(self.out))}
        T = lambda: str(rng.choice(["metres", "days since 2000-01-01T00:00:00", "Height: above the geoid", "# of things", "a, b", "Tidal elevations (m)", "yes", "12", "50% of \"it\"", "- none", "[m]", "{m}", "null", "x: 'y'", "µm"]))
        self.att = {v: dict(units=T(), long_name=T()) for v in self.out}
        if rng.random() < 0.3:
            self.att[N["data"]]["description"] = T()
        if rng.random() < 0.2:
            self.att[N["time"]]["calendar"] = "standard"
        if rng.random() < 0.3:
            self.att[N["data"]]["units_of_time"] = "s"
        if self.fill:
            self.att[N["data"]]["_FillValue"] = self.fv if rng.random() < 0.5 else float(self.fv) if dt[0] == "f" else int(self.fv)
        if rng.random() < 0.5:
            self.att["ROOT"] = dict(title=T(), description=T(), project="p")
        self.scalar = abs_["scalar"]
        self.gridmap = False
        if self.scalar:
            self.out["offset"] = np.array(self.scalar * 1.0)
            self.att["offset"] = dict(units="m")
        elif rng.random() < 0.25:
            self.gridmap = True
            self.out["crs"] = np.empty((), dtype=np.byte) if rng.random() < 0.0 else np.array(0, dtype=np.byte)
            self.att["crs"] = dict(crs_wkt=wkt, standard_name="crs")
            self.att[N["data"]]["grid_mapping"] = "crs"
        self.wkt = wkt

    def expect(self):
        N = self.names
        d = self.out[N["data"]]
        return cells(d), cells(self.out[N["x"]]), cells(self.out[N["y"]]), cells(self.out[N["time"]])


def write(pyTMD, rng, c, out, att, fmt, path):
    N = c.names
    if fmt in ("ascii", "yaml"):
        kw = dict(columns=[N["time"], N["y"], N["x"], N["data"]], header=fmt == "yaml", delimiter=c.delim)
        f = "ascii"
        if rng.random() < 0.2:
            kw["columns"] = tuple(kw["columns"])
    elif fmt == "netCDF4":
        kw, f = dict(data_type=c.kind), fmt
    elif fmt == "HDF5":
        kw, f = {}, fmt
    elif fmt in ("GTiff", "cog"):
        kw, f = dict(varname=N["data"]), fmt
        if fmt == "GTiff":
            kw["driver"] = "GTiff"
        elif rng.random() < 0.5:
            kw["driver"] = "cog"
        # the georeference comes with the attributes
        x, y = out[N["x"]], out[N["y"]]
        att.update(extent=(x[0] - 4.0, x[-1] - 4.0, y[-1] + 4.0, y[0] + 4.0), spacing=(8.0, -8.0), wkt=c.wkt)
    else:
        kw, f = dict(compression=["snappy", "gzip", None][int(rng.integers(3))]), fmt
        if rng.random() < 0.5:
            kw["crs"] = 4326
        if rng.random() < 0.5 and "crs" in kw:
            kw["geoparquet"] = True
        c.geo = kw.get("geoparquet", False)
    if fmt in ("ascii", "yaml", "parquet", "GTiff", "cog"):
        out = {k: v for k, v in out.items() if k in N.values()}
        att = dict({k: v for k, v in att.items() if k in out or k in ("extent", "spacing", "wkt", "ROOT")})
    keep = (copy.deepcopy(out), copy.deepcopy(att), copy.deepcopy(kw))
    p = str(path) if rng.random() < 0.5 else path
    if fmt in ("netCDF4", "HDF5") and rng.random() < 0.25:
        # in two steps: some of the variables, or other values, first
        if rng.random() < 0.5:
            first = {k: v for k, v in out.items() if k in (N["time"], N["data"]) or rng.random() < 0.5}
        else:
            first = dict(out)
            first[N["data"]] = out[N["data"]] * 0
        if N["data"] in first and c.gridmap and "crs" not in first:
            pass
        a = {k: v for k, v in att.items() if k in first or k == "ROOT"}
        o = call(pyTMD.spatial.to_file, first, a, p, f, **kw)
        if o.ok:
            o = call(pyTMD.spatial.to_file, out, att, p, f, mode="a", **kw)
        how = "append"
    elif rng.random() < 0.5:
        o = call(pyTMD.spatial.to_file, out, att, p, f, **kw)
        how = "to_file"
    else:
        fn = dict(ascii="to_ascii", netCDF4="to_netCDF4", HDF5="to_HDF5", GTiff="to_geotiff", cog="to_geotiff", parquet="to_parquet")[f]
        if fmt == "cog":
            kw.setdefault("driver", "cog")
        keep = (keep[0], keep[1], copy.deepcopy(kw))
        o = call(getattr(pyTMD.spatial, fn), out, att, p, **kw)
        how = fn
    return dict(kind="write", status=o.err or "ok", msg=o.msg, clean=same(keep[0], out) and same(keep[1], att) and same(keep[2], kw)), how


def text(v):
    if isinstance(v, bytes):
        v = v.decode()
    return str(v)


def read(pyTMD, rng, c, fmt, path):
    """the record of a reading, and what was read"""
    N = c.names
    r = dict(kind="read", fmt=fmt, tol=0, timed=fmt not in ("GTiff", "cog"), hasscalar=False, scalar=0, gotscalar=0, dims=[], wantdims=[], clean=True, fill=q(getattr(c, "fv", 0), 8.0), hasfill=bool(c.fill),
             att=[], gotatt=[], gotfill=0)
    r["cells"], r["x"], r["y"], r["t"] = c.expect()
    comp = [None, "gzip", "bytes"][int(rng.integers(3))]
    if fmt == "parquet":
        comp = None
    src = path
    if comp == "gzip":
        src = path.with_name(path.name + ".gz")
        with gzip.open(src, "wb") as fid:
            fid.write(path.read_bytes())
    arg = src
    if comp != "bytes":
        if rng.random() < 0.4:
            # other letter case, with similar names around
            arg = src.with_name("".join(ch.upper() if rng.random() < 0.5 else ch for ch in src.name))
            for k, other in enumerate((src.name + ".bak", "a" + src.name, src.name.replace(".", "x"), src.stem)):
                if not src.with_name(other).exists() and rng.random() < 0.5 and other.lower() != src.name.lower():
                    src.with_name(other).write_bytes(b"nothing of that kind")
        arg = str(arg) if rng.random() < 0.5 else arg
    else:
        arg = io.BytesIO(path.read_bytes())
    kw = {} if fmt == "parquet" else dict(compression=comp)
    scalar = bool(c.scalar) and fmt in ("netCDF4", "HDF5") and rng.random() < 0.7
    if fmt in ("ascii", "yaml"):
        f = "ascii"
        kw.update(columns=[N["time"], N["y"], N["x"], N["data"]], header="YAML" if fmt == "yaml" else 0, delimiter=c.delim)
        if fmt == "ascii":
            kw["columns"] = ["time", "y", "x", "data"]
        g = (lambda d, k: d[N[k]]) if fmt == "yaml" else (lambda d, k: d[k])
    elif fmt in ("netCDF4", "HDF5"):
        f = fmt
        if scalar or rng.random() < 0.4:
            kw["field_mapping"] = {k: v for k, v in N.items()}
            if scalar:
                kw["field_mapping"]["offset"] = "offset"
        else:
            kw.update(timename=N["time"], xname=N["x"], yname=N["y"], varname=N["data"])
        g = lambda d, k: d[k]
    elif fmt in ("GTiff", "cog"):
        f = fmt
        g = lambda d, k: d[k]
    else:
        f = fmt
        g = lambda d, k: np.asarray(d[k] if k in ("x", "y") and c.geo else d[N[k]])
    # what is the default need not be said
    usual = dict(compression=None, columns=["time", "y", "x", "data"], delimiter=",", header=0, timename="time", xname="lon", yname="lat", varname="data")
    for k in [k for k in kw if k in usual and kw[k] == usual[k] and type(kw[k]) is type(usual[k])]:
        if rng.random() < 0.5:
            kw.pop(k)
    keep = copy.deepcopy({k: v for k, v in kw.items()})
    o = call(pyTMD.spatial.from_file, arg, f, **kw)
    r.update(status=o.err or "ok", msg=o.msg, clean=same(keep, kw))
    if not o.ok:
        return r, None, comp
    d = o.value
    def take():
        data = g(d, "data")
        if fmt == "parquet":
            data = np.ma.masked_invalid(np.asarray(data, float)) if c.fill != "nan" else np.ma.masked_invalid(np.asarray(data))
        r["got"] = cells(data)
        r["gotx"], r["goty"] = cells(g(d, "x")), cells(g(d, "y"))
        r["gott"] = cells(g(d, "time")) if r["timed"] else []
        shape = list(np.shape(c.out[N["data"]]))
        if fmt in ("GTiff", "cog") and shape[2] == 1:
            shape = shape[:2]
        r["shape"], r["gotshape"] = shape, list(np.shape(data))
        if scalar:
            r.update(hasscalar=True, scalar=q(c.scalar, 8), gotscalar=q(np.asarray(d["offset"]).ravel()[0], 8))
        if Attributes(fmt):
            if fmt == "parquet":
                A = d.attrs["pyTMD"]
                want = {k: v for k, v in c.att.items() if k in N.values() and not (c.geo and k in (N["x"], N["y"]))}
                look = lambda k: A.get(k, {})
            else:
                A = d["attributes"]
                want = {k: c.att[N[k]] for k in N}
                look = lambda k: A.get(N[k] if fmt == "yaml" else k, {})
                if fmt in ("netCDF4", "HDF5") and "ROOT" in c.att:
                    r["att"] += [f"ROOT:{k}={c.att['ROOT'][k]}" for k in ("title", "description")]
                    r["gotatt"] += [f"ROOT:{k}={text(A.get(k))}" for k in ("title", "description")]
            for k, v in want.items():
                for a in ("units", "long_name", "description", "calendar", "grid_mapping"):
                    if a in v and not (a == "grid_mapping" and fmt not in ("netCDF4", "HDF5")):
                        r["att"].append(f"{k}:{a}={v[a]}")
                        r["gotatt"].append(f"{k}:{a}={text(look(k).get(a))}")
            if c.fill and fmt != "parquet":
                fv = look("data").get("_FillValue")
                r["gotfill"] = q(fv, 8.0) if not isinstance(fv, str) else -1
        if fmt in ("GTiff", "cog") and c.fill:
            r["gotfill"] = q(d["attributes"]["data"].get("_FillValue", 12345.0), 8.0)
        if fmt == "netCDF4":
            import netCDF4
            n = netCDF4.Dataset(path)
            w = dict(drift=("time",), grid=("y", "x", "time")).get(c.kind, ("station", "time"))
            one = dict(drift=[("time",)] * 3, grid=[("x",), ("y",), ("time",)]).get(c.kind, [("station",), ("station",), ("time",)])
            r["wantdims"] = ["|".join(x) for x in one + [w]]
            r["dims"] = ["|".join(n.variables[N[k]].dimensions) for k in ("x", "y", "time", "data")]
            n.close()
    w = call(take)
    if not w.ok:
        r.update(status=w.err, msg=w.msg)
    return r, d, comp


def Attributes(fmt):
    return fmt in ("yaml", "netCDF4", "HDF5", "parquet")


def histories(ctx, cases, recs):
    import pyTMD.spatial, osgeo.osr
    rng = ctx.rng
    osgeo.osr.UseExceptions()
    s = osgeo.osr.SpatialReference(); s.ImportFromEPSG(4326)
    wkt = s.ExportToWkt()
    todo = [x for x in cases if x["hist"][0]["f"] != "find"]
    todo.sort(key=lambda x: len(x["hist"]))
    n = 2500 if ctx.thorough else 520
    for j in rng.choice(len(todo), size=min(n, len(todo)), replace=False):
        case = todo[int(j)]
        c = Content(rng, case["c"], wkt)
        c.delim = [",", " ", ";", "\t", ", "][int(rng.integers(5))]
        c.geo = False
        d = ctx.scratch / f"h{j}"; d.mkdir()
        att = copy.deepcopy(c.att)
        disk = []
        key = f"{case['c']['kind']}|{case['c']['fill']}|" + ">".join(f"{h['f']}:{h['fmt']}" for h in case["hist"])
        last = None
        for i, h in enumerate(case["hist"]):
            if h["f"] == "write":
                p = d / f"f{len(disk)}.{SUFFIX[h['fmt']]}"
                r, how = write(pyTMD, rng, c, c.out, att, h["fmt"], p)
                for k in ("extent", "spacing", "wkt"):
                    att.pop(k, None)
                r["key"] = f"write|{key}|{i}|{how}|{c.out[c.names['data']].dtype}"
                recs.append(r)
                disk.append((p, c.names, copy.copy(c)))
                if r["status"] != "ok":
                    break
            elif h["f"] == "read":
                p, _, cc = disk[h["i"] - 1]
                r, got, comp = read(pyTMD, rng, cc, h["fmt"], p)
                r["key"] = f"read|{key}|{i}|{comp}|{c.out[c.names['data']].dtype}|{r['status']}"
                recs.append(r)
                last = (got, h["fmt"], cc)
                if r["status"] != "ok":
                    break
            else:
                got, fmt, cc = last
                c2 = copy.copy(cc)
                own = fmt == "yaml"
                keys = [k for k in got if k != "attributes"]
                out = {k: got[k] for k in keys}
                at = {k: dict(got["attributes"][k]) for k in keys}
                for k in at:
                    at[k].pop("precision", None); at[k].pop("comment", None)
                if not own:
                    c2.names = dict(time="time", y="y", x="x", data="data")
                if fmt in ("GTiff", "cog"):
                    at = {k: at[k] for k in at}
                if "crs" in got["attributes"] and fmt in ("netCDF4", "HDF5"):
                    out["crs"] = np.array(0, dtype=np.byte); at["crs"] = dict(got["attributes"]["crs"])
                else:
                    for k in at:
                        at[k].pop("grid_mapping", None)
                c2.out, c2.att = out, copy.deepcopy(at)
                c2.scalar = c.scalar if "offset" in out else 0
                if fmt in ("GTiff", "cog"):
                    break
                p = d / f"f{len(disk)}.{SUFFIX[h['fmt']]}"
                r, how = write(pyTMD, rng, c2, out, at, h["fmt"], p)
                r["key"] = f"again|{key}|{i}|{how}"
                recs.append(r)
                # the content is that of the first writing, under the names of the reading
                c3 = copy.copy(c2)
                N = cc.names
                c3.out = {c2.names[k]: cc.out[N[k]] for k in N}
                c3.att = {c2.names[k]: {a: v for a, v in cc.att[N[k]].items() if a in c2.att[c2.names[k]] or a == "_FillValue"} for k in N}
                c3.scalar = c2.scalar
                disk.append((p, c3.names, c3))
                if r["status"] != "ok":
                    break


def finding(ctx, cases, recs):
    """files by name in any letter case; similar names beside them"""
    import pyTMD.spatial
    rng = ctx.rng
    todo = [x for x in cases if x["hist"][0]["f"] == "find"]
    for j, x in enumerate(todo):
        d = ctx.scratch / f"n{j}"; d.mkdir()
        stem = ["a", "model", "h_m2[1]", "tide+x", "m2(v1)"][int(rng.integers(5))]
        ren = lambda n: n.replace("a", stem, 1) if n[0] == "a" else n.replace("A", stem.upper(), 1)
        fs = [ren(n) for n in x["fs"]]
        for n in fs:
            (d / n).write_bytes(n.encode())
        n = ren(x["hist"][0]["fmt"])
        o = call(pyTMD.spatial.case_insensitive_filename, [d / n, str(d / n)][j % 2])
        got = pathlib.Path(o.value).name if o.ok else ""
        recs.append(dict(kind="find", status="ok", fs=fs, low=[f.lower() for f in fs], n=n, lown=n.lower(), got=got, missing=o.err == "FileNotFoundError", key=f"find|{n}|{sorted(fs)}"))


def windows(ctx, cases, recs):
    """parts of rasters, by bounds"""
    import pyTMD.spatial
    from osgeo import gdal, osr
    rng = ctx.rng
    s = osr.SpatialReference(); s.ImportFromEPSG(3031)
    by = {}
    for c in cases:
        by.setdefault(c["n"], []).append(c)
    N = 700 if ctx.thorough else 150
    for j in range(N):
        cx, cy = [g[int(rng.integers(len(g)))] for g in (by[int(rng.choice(list(by)))] for _ in "xy")]
        nx, ny, nb = cx["n"], cy["n"], int(rng.integers(1, 4))
        f = ctx.scratch / f"w{j}.tif"
        x0, y0, p = float(rng.integers(-9, 9)) * 100.0, float(rng.integers(-9, 9)) * 100.0, float(rng.choice([8.0, 0.5, 2048.0, 0.1, 1 / 3]))
        g = gdal.GetDriverByName("GTiff").Create(str(f), nx, ny, nb, gdal.GDT_Float64, [])
        g.SetGeoTransform((x0, p, 0, y0, 0, -p)); g.SetProjection(s.ExportToWkt())
        A = rng.integers(1, 500, (ny, nx, nb)).astype(float)
        fill = bool(rng.random() < 0.5)
        if fill:
            A[rng.random(A.shape) < 0.3] = -9999.0
        for b in range(nb):
            g.GetRasterBand(b + 1).WriteArray(A[:, :, b])
            if fill:
                g.GetRasterBand(b + 1).SetNoDataValue(-9999.0)
        g.FlushCache(); del g
        u = p / 8
        whole = bool(rng.random() < 0.1)
        if whole:
            cx, cy = dict(n=nx, lo=0, hi=8 * (nx - 1)), dict(n=ny, lo=0, hi=8 * (ny - 1))
        b = [x0 + u * cx["lo"], x0 + u * cx["hi"], y0 - u * cy["hi"], y0 - u * cy["lo"]]
        b = [b, tuple(b), np.array(b)][int(rng.integers(3))]
        away = bool(not whole and rng.random() < 0.1)
        if away:
            # bounds beside the raster
            i = int(rng.integers(4))
            d = p * (3 + max(nx, ny)) * 2
            b = np.array(b); b[[0, 1] if i < 2 else [2, 3]] += d if i % 2 else -d
            b = [float(v) for v in b]
        k = np.copy(b)
        comp = ["gzip", "bytes", None][int(rng.integers(3))]
        arg = f
        if comp == "gzip":
            arg = f.with_name(f.name + ".gz")
            with gzip.open(arg, "wb") as fid:
                fid.write(f.read_bytes())
        elif comp == "bytes":
            arg = io.BytesIO(f.read_bytes())
        o = call(pyTMD.spatial.from_geotiff, arg, bounds=b, compression=comp)
        r = dict(kind="window", status=o.err or "ok", msg=o.msg, nx=nx, ny=ny, xlo=cx["lo"], xhi=cx["hi"], ylo=cy["lo"], yhi=cy["hi"], whole=whole, col=[], row=[], cells=[], got=[], extent=[], gotextent=[], clean=bool(np.array_equal(k, b)),
                 key=f"window|{nx}x{ny}x{nb}|x {cx['lo']} to {cx['hi']}|y {cy['lo']} to {cy['hi']}|{comp}|{fill}|{whole}")
        if away:
            r = dict(kind="beside", status="ok", refused=not o.ok, empty=bool(o.ok and np.size(o.value["data"]) == 0 and 0 in (np.size(o.value["x"]), np.size(o.value["y"]))), key=r["key"])
        recs.append(r)
        if not o.ok or away:
            continue
        d = o.value
        def take():
            col, row = (np.asarray(d["x"]) - x0) / p - 0.5, (y0 - np.asarray(d["y"])) / p - 0.5
            r["col"], r["row"] = [int(round(v)) if abs(v - round(v)) < 1e-6 else -5 for v in col], [int(round(v)) if abs(v - round(v)) < 1e-6 else -5 for v in row]
            B = A[np.ix_([c for c in r["row"] if 0 <= c < ny], [c for c in r["col"] if 0 <= c < nx])]
            B = B[:, :, 0] if nb == 1 else B
            r["cells"] = cells(np.ma.array(B, mask=B == -9999.0)) if np.shape(d["data"]) == B.shape else [1]
            r["got"] = cells(d["data"])
            # left edges of the first and last columns, upper edges of the last and first rows
            r["extent"] = [8 * v for v in (min(r["col"]), max(r["col"]), -max(r["row"]), -min(r["row"]))]
            r["gotextent"] = [q((v - o) / p, 8.0) for v, o in zip(d["attributes"]["extent"], (x0, x0, y0, y0))]
        w = call(take)
        if not w.ok:
            r.update(status=w.err, msg=w.msg)


def main(ctx):
    import pyTMD.spatial
    cases = ctx.model("FilesMC", CFG % ("sound", "TRUE", 4), name="histories of files")
    for d in ("zero is no fill", "mask ignored", "scalar dropped", "attribute removed", "prefix"):
        ctx.refute("FilesMC", CFG % (d, "FALSE", 3), name=d)
    wcfg = "SPECIFICATION Spec\nINVARIANTS Lawful Nested Emit\nCHECK_DEADLOCK FALSE\nCONSTANTS\n Design = \"%s\"\n EmitOn = %s\n MaxN = %d\n"
    part = ctx.model("WindowMC", wcfg % ("sound", "TRUE", 5), name="parts of rasters")
    for d in ("counted", "upper edge dropped", "outside wraps"):
        ctx.refute("WindowMC", wcfg % (d, "FALSE", 3), name=d)
    recs = []
    windows(ctx, part, recs)
    histories(ctx, cases, recs)
    finding(ctx, cases, recs)
    can = []
    for k, f in (("read", dict(gotx=[1] * 9)), ("write", dict(clean=False)), ("find", dict(got="other")), ("window", dict(gotextent=[1, 2, 3, 4]))):
        g = [r for r in recs if r["kind"] == k and r["status"] == "ok"]
        if g:
            can.append(dict(g[len(g) // 2], **f))
    ctx.validate("FilesTrace", recs, canaries=can, cfg="SPECIFICATION TraceSpec\nPOSTCONDITION Consumed\nCHECK_DEADLOCK FALSE\n")
