"""C26: the command-line programs"""
import contextlib
import datetime
import hashlib
import importlib.util
import io
import json
import logging
import os
import pathlib
import subprocess
import sys
import numpy as np
from vlib import *
import models as M
import mgen as G
from c22 import Ctl
from spk import kernel

CFG = "SPECIFICATION Spec\nINVARIANTS Lawful Emit\n%sCHECK_DEADLOCK FALSE\nCONSTANTS\n Design = \"%s\"\n EmitOn = %s\n MaxLen = %d\n Progs = {%s}\n Fmts = {%s}\n"
NOCELL = 777777777
SCRIPTS = dict(tide="compute_tidal_elevations", current="compute_tidal_currents", lpet="compute_LPET_elevations", lpt="compute_LPT_displacements",
               opt="compute_OPT_displacements", set="compute_SET_displacements")
SUFFIX = dict(csv="csv", netCDF4="nc", HDF5="h5", GTiff="tif", cog="tif", parquet="parquet")
VARIABLE = dict(lpet="tide_lpe", lpt="tide_pole", opt="tide_oc_pole", set="tide_earth")
EPOCHS = {0: [datetime.datetime(1992, 1, 1), datetime.datetime(1992, 1, 1)], 3: [datetime.datetime(2000, 1, 1), datetime.datetime(1985, 1, 1)]}
BASE = datetime.datetime(1992, 1, 1)
UNITS = dict(days=86400.0, hours=3600.0, minutes=60.0, seconds=1.0)
SYSTEMS = {0: ["4326", "EPSG:4326", "+proj=longlat +datum=WGS84 +no_defs"], 5: ["3031", "EPSG:3031", "+proj=stere +lat_0=-90 +lat_ts=-71 +lon_0=0 +datum=WGS84 +units=m +no_defs"],
           6: ["+proj=merc +lon_0=0 +datum=WGS84 +units=m +no_defs", "3395"]}
# offsets of the standards from UTC
LEAPS = [(datetime.datetime(1981, 7, 1), 20), (datetime.datetime(1982, 7, 1), 21), (datetime.datetime(1983, 7, 1), 22), (datetime.datetime(1985, 7, 1), 23), (datetime.datetime(1988, 1, 1), 24), (datetime.datetime(1990, 1, 1), 25), (datetime.datetime(1991, 1, 1), 26),
         (datetime.datetime(1992, 7, 1), 27), (datetime.datetime(1993, 7, 1), 28), (datetime.datetime(1994, 7, 1), 29), (datetime.datetime(1996, 1, 1), 30), (datetime.datetime(1997, 7, 1), 31),
         (datetime.datetime(1999, 1, 1), 32), (datetime.datetime(2006, 1, 1), 33), (datetime.datetime(2009, 1, 1), 34), (datetime.datetime(2012, 7, 1), 35), (datetime.datetime(2015, 7, 1), 36), (datetime.datetime(2017, 1, 1), 37)]


def offset(std, sec):
    """seconds the standard is ahead of UTC"""
    t = BASE + datetime.timedelta(seconds=int(sec))
    tai = max([19] + [n for d, n in LEAPS if d <= t])
    return dict(UTC=0, TAI=tai, GPS=tai - 19, LORAN=tai - 10)[std]


def program(name):
    """the module of a program"""
    f = pathlib.Path(os.environ.get("VERIF_REPO", "/repo")) / "scripts" / f"{SCRIPTS[name]}.py"
    spec = importlib.util.spec_from_file_location(f"prog_{name}", f)
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    return m, f


class Models:
    """models with dry places, by definition file"""
    def __init__(self, ctx):
        self.W = G.World(ctx)
        rng = ctx.rng
        self.z, self.uv = [], []
        for fmt, kind in (("GOT-netcdf", "z"), ("OTIS", "z"), ("FES-netcdf:FES2014", "z"), ("ATLAS-netcdf", "z"), ("TMD3", "z"), ("OTIS", "uv"), ("FES-netcdf:FES2014", "uv"), ("ATLAS-netcdf", "uv")):
            w = self.W.build(rng, fmt, kind, "pix", cons=("m2", "s2", "n2", "k1", "o1", "q1", "k2", "p1"), gz=False, y0=-75.0, **({"flexure": True} if fmt == "TMD3" else {}))
            f = w["dir"] / "definition.json"
            ref = {} if len(self.z) == 1 else dict(reference="https://doi.org/10.0/model")
            f.write_text(json.dumps(dict(w["definition"], **ref)))
            (self.z if kind == "z" else self.uv).append((fmt, f))
        # named models, found in a directory
        import c14
        self.root = ctx.scratch / "named"
        P = c14.Place(self.root)
        db = M.database()
        for what, pool in (("elevation", self.z), ("current", self.uv)):
            names = sorted(n for n, e in db[what].items() if e["format"] != "ATLAS-compact" and not isinstance(e.get("projection"), dict))
            for n in rng.choice(names, 3, replace=False):
                P.write(db[what][str(n)], what, True)
                pool.append((str(n), None if db[what][str(n)]["format"] in ("OTIS", "TMD3") else False))


class User:
    def __init__(self, ctx, j, start, mods, progs):
        self.ctx, self.rng, self.mods, self.progs = ctx, ctx.rng, mods, progs
        self.d = ctx.scratch / f"p{j}"
        self.d.mkdir()
        self.variable = ""
        self.j = j
        self.names = {}
        # a stand-in for the kernel the package downloads
        import pyTMD.astro
        self.kernel = None
        if hasattr(pyTMD.astro, "_default_kernel"):
            self.kernel = ctx.scratch / "kernel.bsp"
            if not self.kernel.exists():
                kernel(self.kernel, {(0, 10): (3e5, -8e5, -3e5), (0, 3): (-1.2e8, 7.4e7, 3.1e7), (3, 399): (2100.0, -3900.0, -1300.0), (3, 301): (-171000.0, 309000.0, 152000.0)})
            pyTMD.astro._default_kernel = self.kernel

    def path(self, n, fmt):
        return self.d / f"{n}_file.{SUFFIX[fmt]}"

    # -- a file of the user ---------------------------------------------------
    def put(self, f, first):
        import pyproj
        rng = self.rng
        fmt, kind = f["fmt"], f["kind"]
        system = f["system"]
        if system == 5 and rng.random() < 0.3:
            system = 6
        crs = SYSTEMS[system]
        small = lambda: int(rng.integers(2, 5))
        n = small()
        if kind == "drift":
            nx = ny = nt = int(rng.integers(2, 7))
        elif kind == "grid":
            nx, ny, nt = small(), small(), int(rng.integers(1, 4))
        else:
            nx = ny = int(rng.integers(1, 5)); nt = int(rng.integers(1, 5))
        if kind == "grid" and rng.random() < 0.3:
            ny = nx
        if system == 0:
            if kind == "grid":
                dx, dy = float(rng.choice([2.5, 7.0, 11.25])), float(rng.choice([2.5, 5.0, 8.0]))
                x = float(rng.choice([-170.3, 20.7, 200.1, 101.9])) + dx * np.arange(nx)
                y = float(rng.choice([-30.2, 12.6, 48.3])) - dy * np.arange(ny)
            else:
                x, y = rng.uniform(-179, 359, nx), rng.uniform(-64, 64, nx)
        else:
            s = 6.0e5 if system == 5 else 8.0e5
            if kind == "grid":
                x = float(rng.integers(-3, 3)) * s + 12345.0 + s * np.arange(nx); y = float(rng.integers(-2, 4)) * s + 6789.0 - s * np.arange(ny)
            else:
                x, y = rng.uniform(-2.5e6, 2.5e6, nx), rng.uniform(-2.5e6, 2.5e6, nx)
        tr = pyproj.Transformer.from_crs(pyproj.CRS.from_user_input(int(crs[0]) if crs[0].isdigit() else crs[0]), pyproj.CRS.from_epsg(4326), always_xy=True)
        X, Y = np.meshgrid(x, y) if kind == "grid" else (x, y)
        lon, lat = tr.transform(X.ravel(), Y.ravel())
        # instants: seconds since 1992 in UTC, on the quarter of the hour, away from leap seconds
        sec = rng.integers(200, 10000, nt) * 86400 + rng.integers(1, 95, nt) * 900
        if kind != "drift":
            sec = np.sort(sec)
        epoch = EPOCHS[f["epoch"]][int(rng.integers(2))]
        unit = list(UNITS)[int(rng.integers(4))]
        self.epoch, self.unit, self.crs = epoch, unit, crs
        std = "UTC"
        if rng.random() < 0.4:
            std = ["GPS", "TAI", "LORAN"][int(rng.integers(3))]
        if fmt == "csv" and rng.random() < 0.3:
            std = "datetime"
        raw = self.raw(sec, epoch, unit, std)
        info = dict(fmt=fmt, kind=kind, saystime=f["saystime"], epoch=f["epoch"], sayssystem=f["sayssystem"], system=f["system"], times=[int(s) for s in sec] if fmt not in ("GTiff", "cog") else [],
                    places=[[q(a, 1e4), q(b, 1e4)] for a, b in zip(lon, lat)], cells=[])
        self.names["in"] = dict(info=info, path=self.path("in", fmt), epoch=epoch, unit=unit, crs=crs, std=std, sec=sec, lon=np.array(lon), lat=np.array(lat), header=0, delim=",")
        F = self.names["in"]
        data = rng.normal(size=dict(drift=(nx,), grid=(ny, nx, nt)).get(kind, (nx, nt)))
        t, yn, xn = [("time", "y", "x"), ("t", "lat", "lon"), ("delta_time", "latitude", "longitude"), ("time", "lat", "lon")][int(rng.integers(4))]
        if fmt in ("csv",):
            t, yn, xn = [("time", "y", "x"), ("time", "lat", "lon")][int(rng.integers(2))]
        if fmt == "netCDF4":
            self.nc(F, f, t, yn, xn, raw, x, y, data, kind)
        elif fmt == "HDF5":
            import h5py
            with h5py.File(F["path"], "w") as h:
                for nm, v in ((t, raw), (yn, y), (xn, x), ("data", data)):
                    h.create_dataset(nm, data=v)
                if f["saystime"]:
                    h[t].attrs["units"] = f"{unit} since {epoch.isoformat()}"
                if f["sayssystem"]:
                    h.attrs["projection"] = crs[int(rng.integers(len(crs)))]
        elif fmt == "parquet":
            self.parquet(F, f, t, yn, xn, raw, x, y, data)
        elif fmt == "csv":
            F["header"] = int(rng.integers(0, 3))
            F["delim"] = [",", ";", "|"][int(rng.integers(3))]
            cols = dict(time=raw, data=data); cols[yn] = y; cols[xn] = x
            order = [t, yn, xn, "data"]
            if rng.random() < 0.4:
                order = [order[i] for i in rng.permutation(4)]
            with F["path"].open("w") as g:
                for k in range(F["header"]):
                    g.write("# a line of text, with 1.5 numbers\n")
                for k in range(nx):
                    g.write(F["delim"].join(str(cols[c][k]) if c == "time" and std == "datetime" else repr(float(cols[c][k])) for c in order) + "\n")
            F["columns"] = order
        else:
            self.tif(F, crs, x, y, data)
        if fmt != "csv":
            F["columns"] = [t, yn, xn, "data"]
        if kind == "grid":
            F["gshape"] = (ny, nx)
        return dict(kind="put", status="ok", name="in", first=first, file=info, key="put")

    def raw(self, sec, epoch, unit, std):
        if std == "datetime":
            form = ["%Y-%m-%d %H:%M:%S", "%Y-%m-%dT%H:%M:%S"][int(self.rng.integers(2))]
            return np.array([(BASE + datetime.timedelta(seconds=int(s))).strftime(form) for s in sec])
        return np.array([(int(s) + offset(std, s) - offset(std, (epoch - BASE).total_seconds()) - (epoch - BASE).total_seconds()) / UNITS[unit] for s in sec])

    def nc(self, F, f, t, yn, xn, raw, x, y, data, kind):
        import netCDF4
        rng = self.rng
        crs = F["crs"]
        with netCDF4.Dataset(F["path"], "w") as h:
            if kind == "drift":
                h.createDimension(t, len(raw)); D = dict(t=(t,), y=(t,), x=(t,), d=(t,))
            elif kind == "grid":
                for nm, v in ((yn, y), (xn, x), (t, raw)):
                    h.createDimension(nm, len(v))
                D = dict(t=(t,), y=(yn,), x=(xn,), d=(yn, xn, t))
            else:
                h.createDimension("station", len(x)); h.createDimension(t, len(raw)); D = dict(t=(t,), y=("station",), x=("station",), d=("station", t))
            for nm, v, dd in ((t, raw, D["t"]), (yn, y, D["y"]), (xn, x, D["x"]), ("data", data, D["d"])):
                h.createVariable(nm, "f8", dd)[:] = v
            if f["saystime"]:
                h[t].units = f"{F['unit']} since {F['epoch'].isoformat()}"
            if f["sayssystem"]:
                if rng.random() < 0.5:
                    h.projection = crs[int(rng.integers(len(crs)))]
                else:
                    import pyproj
                    h.createVariable("crs", "i4", ())
                    h["crs"].crs_wkt = pyproj.CRS.from_user_input(int(crs[0]) if crs[0].isdigit() else crs[0]).to_wkt("WKT1_GDAL")
                    h["data"].grid_mapping = "crs"

    def parquet(self, F, f, t, yn, xn, raw, x, y, data):
        import pandas as pd, pyarrow, pyarrow.parquet, pyproj
        df = pd.DataFrame({t: raw, yn: y, xn: x, "data": data})
        tab = pyarrow.Table.from_pandas(df, preserve_index=False)
        if f["sayssystem"]:
            crs = F["crs"]
            pj = pyproj.CRS.from_user_input(int(crs[0]) if crs[0].isdigit() else crs[0]).to_json_dict()
            if self.rng.random() < 0.5:
                import shapely
                df = pd.DataFrame({t: raw, "data": data, "geometry": shapely.to_wkb(shapely.points(x, y))})
                tab = pyarrow.Table.from_pandas(df, preserve_index=False)
                meta = {b"geo": json.dumps(dict(version="1.1.0", primary_column="geometry", columns=dict(geometry=dict(encoding="WKB", crs=pj, geometry_types=["Point"])))).encode()}
            else:
                meta = {b"pyTMD": json.dumps(dict(crs=pj)).encode()}
            tab = tab.replace_schema_metadata({**(tab.schema.metadata or {}), **meta})
        pyarrow.parquet.write_table(tab, F["path"])

    def tif(self, F, crs, x, y, data):
        from osgeo import gdal, osr
        dx, dy = x[1] - x[0], y[1] - y[0]
        ny, nx = data.shape[:2]
        g = gdal.GetDriverByName("GTiff").Create(str(F["path"]), nx, ny, 1, gdal.GDT_Float64, [])
        F["gt"] = (x[0] - dx / 2, dx, 0, y[0] - dy / 2, 0, dy)
        g.SetGeoTransform(F["gt"])
        s = osr.SpatialReference(); s.SetFromUserInput(crs[1] if crs[0].isdigit() else crs[0])
        g.SetProjection(s.ExportToWkt())
        g.GetRasterBand(1).WriteArray(data[:, :, 0])
        g.FlushCache(); del g

    # -- a run ----------------------------------------------------------------
    def run(self, op, key):
        import pyTMD.compute
        rng = self.rng
        F = self.names.get(op["from"])
        fmt, kind, prog = op["fmt"], op["kind"], op["prog"]
        src = F["path"] if F else self.path(op["from"], fmt)
        args, lib = [], {}
        mod = ""
        if prog in ("tide", "current"):
            pool = self.mods.z if prog == "tide" else self.mods.uv
            self.variable = "tide_ocean"
            mod, definition = pool[int(rng.integers(len(pool)))]
            if not definition:
                args += [["--tide", "-T"][int(rng.integers(2))], mod, ["--directory", "-D"][int(rng.integers(2))], str(self.mods.root)]
                self.variable = M.database()["elevation"].get(mod, {}).get("variable")
                lib.update(MODEL=mod, DIRECTORY=self.mods.root, GZIP=False)
                # (both the files and compressed copies are there)
                if definition is False and rng.random() < 0.5:
                    args += ["--gzip"]; lib["GZIP"] = True
            else:
                args += ["--definition-file", str(definition)]
                lib["DEFINITION_FILE"] = definition
            if mod == "TMD3" and rng.random() < 0.5:
                args += ["--apply-flexure"]; lib["APPLY_FLEXURE"] = True
            lib["INFER_MINOR"] = False
            if rng.random() < 0.5:
                args += ["--infer-minor"]; lib["INFER_MINOR"] = True
                if rng.random() < 0.6:
                    mc = [["2n2"], ["j1", "mu2"], ["m1"]][int(rng.integers(3))]
                    args += ["--minor-constituents", *mc]; lib["MINOR_CONSTITUENTS"] = mc
            lib["METHOD"] = "spline"
            if rng.random() < 0.6:
                lib["METHOD"] = ["linear", "nearest", "bilinear", "spline"][int(rng.integers(4))]
                args += [["--interpolate", "-I"][int(rng.integers(2))], lib["METHOD"]]
            lib["CUTOFF"] = 10.0
            if rng.random() < 0.4:
                args += [["--extrapolate", "-E"][int(rng.integers(2))]]; lib["EXTRAPOLATE"] = True
                if rng.random() < 0.7:
                    lib["CUTOFF"] = [0.5, 400.0, 1500.0, np.inf][int(rng.integers(4))]
                    args += ["--cutoff", str(lib["CUTOFF"])]
            if rng.random() < 0.4:
                lib["CORRECTIONS"] = ["OTIS", "FES", "GOT", "perth3"][int(rng.integers(4))]
                args += ["--nodal-corrections", lib["CORRECTIONS"]]
            if rng.random() < 0.3:
                args += [["--crop", "-C"][int(rng.integers(2))]]; lib["CROP"] = True
                b = float(rng.choice([31.0, 60.0])); args += ["--buffer", str(b)]; lib["BUFFER"] = b
            if prog == "tide" and rng.random() < 0.2:
                args += ["--append-node"]; lib["APPEND_NODE"] = True
        else:
            if prog != "lpet" and rng.random() < 0.5:
                lib["ELLIPSOID"] = ["GRS80", "WGS84", "CLK66", "INTER", "KRASS", "TOPEX", "IERS"][int(rng.integers(7))]
                args += ["--ellipsoid", lib["ELLIPSOID"]]
            if prog in ("lpt", "opt") and rng.random() < 0.5:
                lib["CONVENTION"] = ["2003", "2010", "2015", "2018"][int(rng.integers(4))]
                args += ["--convention", lib["CONVENTION"]]
            if prog == "opt" and rng.random() < 0.5:
                lib["METHOD"] = ["spline", "linear", "nearest"][int(rng.integers(3))]
                args += ["--interpolate", lib["METHOD"]]
            if prog == "set" and rng.random() < 0.5:
                lib["TIDE_SYSTEM"] = ["tide_free", "mean_tide"][int(rng.integers(2))]
                args += ["--tide-system", lib["TIDE_SYSTEM"]]
            if prog == "set" and self.kernel and rng.random() < 0.4:
                lib["EPHEMERIDES"] = "JPL"
                args += ["--ephemerides", "JPL"]
        if fmt != "csv" or rng.random() < 0.4:
            args += ["--format", fmt]
        if kind != "drift" or rng.random() < 0.5:
            args += ["--type", kind]
        cols = F["columns"] if F else ["time", "y", "x", "data"]
        if fmt not in ("GTiff", "cog") and not (cols == ["time", "lat", "lon", "data"] and rng.random() < 0.7):
            args += ["--variables", *cols]
        if F and fmt == "csv":
            if F["header"]:
                args += ["--header", str(F["header"])]
            if F["delim"] != ",":
                args += ["--delimiter", F["delim"]]
        saystime, sayssystem = (F["info"]["saystime"], F["info"]["sayssystem"]) if F else (False, False)
        e = F["epoch"] if F and not (saystime and op["epoch"] != F["info"]["epoch"]) else EPOCHS[op["epoch"]][0]
        unit = F["unit"] if F else "days"
        std = F["std"] if F else "UTC"
        delta = []
        if op["delta"]:
            sec = np.sort(rng.integers(200, 10000, len(op["delta"])) * 86400 + rng.integers(1, 95, len(op["delta"])) * 900)
            delta = [int(s) for s in sec]
            args += ["--deltatime", *[repr(float(v)) for v in self.raw(sec, e, unit, std)]]
        else:
            sec = F["sec"] if F else np.zeros(0)
        if not (saystime and rng.random() < 0.3):
            args += ["--epoch", f"{unit} since {e.strftime('%Y-%m-%dT%H:%M:%S')}"]
        if std != "UTC" or rng.random() < 0.3:
            args += ["--standard", std]
        crs = F["crs"] if F and not (sayssystem and op["system"] != F["info"]["system"]) else SYSTEMS[op["system"]]
        if not (crs[0] == "4326" and rng.random() < 0.5):
            args += ["--projection", crs[int(rng.integers(len(crs)))]]
        fill = -9999.0
        if rng.random() < 0.4:
            fill = [-999.0, 99999.0, 1e20 if fmt != "csv" else -32768.0][int(rng.integers(3))]
            args += [f"--fill-value={fill!r}"]
        mode = 0o775
        if rng.random() < 0.5:
            mode = int(rng.choice([0o664, 0o600, 0o755])); args += ["--mode", oct(mode)[2:]]
        dst = self.path(op["to"], fmt)
        if rng.random() < 0.6:
            out = [str(src), str(dst)]
            default = False
        else:
            out = [str(src)]; default = True
        # options in any order; positionals first, as lists of values would take them
        argv = out + args
        # (an argument with a blank cannot be given in a file of arguments)
        if rng.random() < 0.3 and not any(" " in a for a in args):
            (self.d / "args.txt").write_text("# arguments\n" + "\n".join(self.lines(args)) + "\n")
            argv = out + ["@" + str(self.d / "args.txt")]
        before = {p: (hashlib.md5(p.read_bytes()).hexdigest(), p.stat().st_mtime_ns) for p in self.d.iterdir()}
        if default and dst.exists():
            dst.unlink(); before.pop(dst, None)
        sub = prog != "opt" and "--ephemerides" not in argv and rng.random() < (0.02 if not self.ctx.thorough else 0.01)
        log = self.start(prog, argv, sub)
        after = {p: hashlib.md5(p.read_bytes()).hexdigest() for p in self.d.iterdir()}
        new = [p for p in after if p not in before or (p != src and (after[p] != before[p][0] or p.stat().st_mtime_ns != before[p][1]))]
        made = None
        if default and len(new) == 1 and new[0].suffix == dst.suffix and new[0].stem.startswith(src.stem + "_"):
            new[0].rename(dst); made = dst; new = [dst]
        elif not default and dst in new:
            made = dst
        r = dict(kind="run", prog=prog, fmt=fmt, okind=kind, epoch=op["epoch"], system=op["system"], delta=delta, status="ok", msg=log[-200:], made=made is not None,
                 inputkept=src not in before or (src in after and after[src] == before[src][0]), others=len([p for p in new if p != made and p != dst]), tol=20, **{"from": op["from"], "to": op["to"]},
                 key=f"{key}|{prog}{'/' + mod if mod else ''}|{fmt}|{kind}|{'default' if default else 'named'}|{std}|{'says' if saystime else ''}{'/crs' if sayssystem else ''}|{' '.join(a for a in args if a.startswith('--'))}",
                 places=[], times=[], hastimes=True, cells=[], fillok=True, attok=True, mode=0, wantmode=mode, lib=dict(places=[], times=[], v=[]))
        if not made or not F:
            return r
        try:
            self.library(r, prog, F, sec, lib)
        except CallTimeout:
            raise
        except Exception as ex:
            raise MachineryError(f"library: {prog} {lib} {type(ex).__name__} {ex}")
        r["mode"] = made.stat().st_mode & 0o777
        try:
            self.result(r, prog, made, F, kind, len(sec), fill, std)
        except Exception as ex:
            r["msg"] = f"{type(ex).__name__}: {ex}"
            r["attok"] = False
        # what the next program may read
        vs = ["u", "v"] if prog == "current" else [VARIABLE.get(prog, self.variable)]
        self.names[op["to"]] = dict(info=dict(F["info"], saystime=fmt in ("netCDF4", "HDF5"), epoch=0, sayssystem=False, system=0), path=dst, epoch=BASE, unit="days", crs=SYSTEMS[0], std="datetime" if fmt == "csv" and std == "datetime" else "UTC",
                                    sec=sec, lon=F["lon"], lat=F["lat"], header=0, delim=F["delim"], gshape=F.get("gshape"), gt=F.get("gt"), columns=["time", "lat", "lon", vs[0]] if fmt != "csv" else ["time", "lat", "lon"] + (["u", "v"] if prog == "current" else ["data"]))
        return r

    def lines(self, args):
        out = []
        for a in args:
            if a.startswith("-") and not a.lstrip("-")[:1].isdigit():
                out.append(a)
            else:
                out[-1] += " " + a
        return out

    def start(self, prog, argv, sub):
        m, f = self.progs[prog]
        if sub:
            env = dict(os.environ, PYTHONPATH=os.environ.get("VERIF_REPO", "/repo"), PYTHONDONTWRITEBYTECODE="1")
            p = subprocess.run([sys.executable, str(f), *argv], capture_output=True, text=True, timeout=120, env=env, cwd=self.d)
            return p.stderr
        old = sys.argv
        sys.argv = [str(f), *argv]
        s = io.StringIO()
        h = logging.StreamHandler(s)
        root = logging.getLogger()
        lv = root.level
        for x in list(root.handlers):
            root.removeHandler(x)
        root.addHandler(h); root.setLevel(logging.CRITICAL)
        root.setLevel(logging.ERROR)
        def go():
            try:
                with contextlib.redirect_stderr(s):
                    m.main()
            except SystemExit as e:
                s.write(f"exit {e.code}")
        o = call(go)
        root.removeHandler(h); root.setLevel(lv)
        sys.argv = old
        return s.getvalue() + o.err + o.msg

    def library(self, r, prog, F, sec, lib):
        """every place at every instant, of the library"""
        import pyTMD.compute as C
        P, T = len(F["lon"]), len(sec)
        kind = r["okind"]
        if kind == "drift":
            ix = [(k, k) for k in range(P)]
        else:
            ix = [(p, t) for p in range(P) for t in range(T)]
        lon = np.array([F["lon"][p] for p, t in ix]); lat = np.array([F["lat"][p] for p, t in ix]); s = np.array([float(sec[t]) for p, t in ix])
        kw = dict(EPSG=4326, EPOCH=(1992, 1, 1, 0, 0, 0), TYPE="drift", TIME="UTC", **lib)
        fn = dict(tide=C.tide_elevations, current=C.tide_currents, lpet=C.LPET_elevations, lpt=C.LPT_displacements, opt=C.OPT_displacements, set=C.SET_displacements)[prog]
        out = fn(lon, lat, s, **kw)
        out = [out["u"], out["v"]] if prog == "current" else [out]
        self.unit = 1e5 if prog in ("tide", "lpet") else 1e4 if prog == "current" else 1e7
        r["tol"] = dict(tide=3, lpet=3, current=30).get(prog, 30)
        table = []
        for o in out:
            m = np.ma.getmaskarray(np.ma.masked_invalid(o)); d = np.ma.getdata(o)
            rows = [[0] * T for _ in range(P)]
            for k, (p, t) in enumerate(ix):
                rows[p][t] = NOCELL if m[k] else q(d[k], self.unit)
            table.append(rows)
        r["lib"] = dict(places=[[q(a, 1e4), q(b, 1e4)] for a, b in zip(F["lon"], F["lat"])], times=[int(s) for s in sec], v=table)

    def result(self, r, prog, path, F, kind, nt, fill, std):
        vs = ["u", "v"] if prog == "current" else [VARIABLE.get(prog, self.variable)]
        fmt = r["fmt"]
        P = len(F["lon"])
        att = {}
        if fmt == "netCDF4":
            import netCDF4
            with netCDF4.Dataset(path) as h:
                h.set_auto_mask(False)
                get = {n: np.array(h[n][:]) for n in ["time", "lon", "lat"] + vs}
                att = {n: {a: h[n].getncattr(a) for a in h[n].ncattrs()} for n in get}
        elif fmt == "HDF5":
            import h5py
            with h5py.File(path) as h:
                get = {n: np.array(h[n][()]) for n in ["time", "lon", "lat"] + vs}
                att = {n: dict(h[n].attrs) for n in get}
        elif fmt == "parquet":
            import pyarrow.parquet, shapely
            tab = pyarrow.parquet.read_table(path)
            df = tab.to_pandas()
            get = {n: df[n].to_numpy() for n in ["time"] + vs}
            if "geometry" in df:
                g = shapely.from_wkb(df["geometry"].values); get.update(lon=shapely.get_x(g), lat=shapely.get_y(g))
            else:
                get.update({n: df[n].to_numpy() for n in ("lon", "lat")})
            att = json.loads(tab.schema.metadata[b"pyTMD"].decode())
        elif fmt == "csv":
            rows = [l.split(F["delim"]) for l in path.read_text().splitlines()]
            get = dict(zip(["time", "lat", "lon"] + vs, [np.array(c) if std == "datetime" and k == 0 else np.array(c, float) for k, c in enumerate(zip(*rows))]))
        else:
            from osgeo import gdal
            g = gdal.Open(str(path))
            A = np.array(g.ReadAsArray()); A = A.reshape((-1,) + A.shape[-2:])
            gt = g.GetGeoTransform()
            ok = np.allclose(gt, F["gt"], rtol=1e-9, atol=1e-6) and g.RasterCount == nt * len(vs)
            nodata = g.GetRasterBand(1).GetNoDataValue()
            r["hastimes"] = False
            r["places"] = [[q(a, 1e4), q(b, 1e4)] for a, b in zip(F["lon"], F["lat"])] if ok else []
            get = {v: np.moveaxis(A[k * nt:(k + 1) * nt], 0, -1) for k, v in enumerate(vs)}
            att = {v: dict(_FillValue=nodata, units="", long_name="") for v in vs}
        if fmt not in ("GTiff", "cog"):
            r["places"] = [[q(a, 1e4), q(b, 1e4)] for a, b in zip(np.ravel(get["lon"]), np.ravel(get["lat"]))]
            if std == "datetime" and fmt == "csv":
                r["times"] = [int((np.datetime64(str(t)) - np.datetime64("1992-01-01")) / np.timedelta64(1, "s")) for t in get["time"]]
            else:
                r["times"] = [q(t, 86400.0) for t in np.ravel(get["time"])]
        shape = dict(drift=(P,), grid=None).get(kind, (P, nt))
        for v in vs:
            d = np.array(get[v], dtype=float)
            if kind == "grid" and (d.ndim != 3 or d.shape[-1] != nt or d.shape[0] * d.shape[1] != P or (d.shape[:2] != F["gshape"])):
                r["msg"] = f"shape {d.shape}"; r["cells"].append([]); continue
            if kind != "grid" and d.shape != shape:
                r["msg"] = f"shape {d.shape}"; r["cells"].append([]); continue
            r["cells"].append([NOCELL if (x == fill or x == np.float32(fill) or (fmt == "parquet" and np.isnan(x))) else q(x, self.unit) for x in d.ravel()])
        if fmt != "csv":
            f = [att.get(v, {}).get("_FillValue") for v in vs]
            masked = any(NOCELL in c for c in r["cells"])
            r["fillok"] = all((x is not None and np.isclose(float(np.ravel(x)[0]), fill)) or (x is None and not masked) for x in f)
            txt = lambda x: x.decode() if isinstance(x, bytes) else str(x)
            want = "cm/s" if prog == "current" else "meters"
            if fmt not in ("GTiff", "cog"):
                r["attok"] = all(txt(att[v].get("units")) == want for v in vs) and txt(att["time"].get("units")).startswith("days since 1992-01-01")


def balanced(rng, cases, n):
    """of every format, kind and program"""
    groups = {}
    for c in cases:
        # runs without a file are few
        miss = sum(1 for i, o in enumerate(c["hist"]) if o["from"] == "out" and not any(p["to"] == "out" for p in c["hist"][:i]))
        if miss and rng.random() < 0.9:
            continue
        groups.setdefault((c["start"]["fmt"], c["start"]["kind"], c["hist"][-1]["prog"]), []).append(c)
    for g in groups.values():
        rng.shuffle(g)
    order = [groups[k] for k in sorted(groups)]
    out, k = [], 0
    while len(out) < n and any(order):
        rng.shuffle(order)
        out += [g.pop() for g in order if g]
    return out[:n]


def main(ctx):
    progs_ = ("tide", "current", "lpet", "lpt", "opt", "set")
    Q = lambda s: ", ".join(f'"{x}"' for x in s)
    fm = ("csv", "netCDF4", "GTiff", "parquet")
    ctx.model("ProgramsMC", CFG % ("PROPERTIES Ends\n", "sound", "FALSE", 2 if ctx.thorough else 1, Q(("tide", "current", "lpet")), Q(fm)), name="programs")
    for d in ("user's system first", "user's epoch first", "first instant", "bands first", "mask lost", "one component", "reads and writes back"):
        ctx.refute("ProgramsMC", CFG % ("", d, "FALSE", 1, Q(("tide", "current", "lpet")), Q(fm)), name=d)
    allf = Q(("csv", "netCDF4", "HDF5", "GTiff", "cog", "parquet"))
    one = ctx.model("ProgramsMC", CFG % ("", "sound", "TRUE", 1, Q(progs_), allf), name="single runs")
    two = ctx.model("ProgramsMC", CFG % ("", "sound", "TRUE", 2, Q(progs_), allf), simulate=(3000, 60), name="pairs of runs")
    cases = balanced(ctx.rng, [c for c in one if c["hist"][0]["from"] == "in"], 500 if ctx.thorough else 140) + balanced(ctx.rng, two, 500 if ctx.thorough else 110)
    mods = Models(ctx)
    ctl = Ctl(ctx)
    progs = {p: program(p) for p in progs_}
    recs = []
    # the last history ends with a run that has to succeed
    last = [c for c in cases if c["start"]["kind"] == "time series" and c["hist"][-1]["from"] == "in"]
    cases = [c for c in cases if c is not last[0]] + last[:1]
    for j, case in enumerate(cases):
        u = User(ctx, j, case["start"], mods, progs)
        recs.append(u.put(case["start"], True))
        key = ""
        for i, op in enumerate(case["hist"]):
            recs.append(u.run(op, f"{key}{i}"))
    import collections
    runs = [r for r in recs if r["kind"] == "run"]
    ctx.notes["runs"] = dict(by_program=collections.Counter(r["prog"] for r in runs), by_format=collections.Counter(r["fmt"] for r in runs), by_kind=collections.Counter(r["okind"] for r in runs),
                             without_file=len([r for r in runs if not r["made"]]), cells=sum(len(c) for r in runs for c in r["cells"]), masked=sum(c.count(NOCELL) for r in runs for c in r["cells"]))
    ctx.validate("ProgramsTrace", recs, canaries=canaries(recs, ctx.rng))


def canaries(recs, rng):
    """of the last history, which has its file and a run that made one"""
    out = []
    good = [r for r in recs if r["kind"] == "run"][-1:]
    good = good if good and good[0]["made"] and good[0]["cells"] and good[0]["from"] == "in" else []
    for r in good:
        for k in range(6):
            c = json.loads(json.dumps(jsonable(r)))
            if k == 0:
                v = [i for i, x in enumerate(c["cells"][-1]) if x != NOCELL]
                if not v:
                    continue
                c["cells"][-1][v[-1]] += 1000
            elif k == 1:
                c["cells"][0] = c["cells"][0] + [5]
            elif k == 2:
                c["made"] = False
            elif k == 3:
                c["inputkept"] = False
            elif k == 4:
                c["places"][0][0] += 50
            else:
                c["cells"][0][0] = 5 if c["cells"][0][0] == NOCELL else NOCELL
            c["key"] = "canary:" + c["key"]
            out.append(c)
    return out
