"""C14: named models of the database"""
import copy
import json
import os
import pathlib
import re
import zlib
import numpy as np
from vlib import *
import models as M

CFG = "SPECIFICATION Spec\nINVARIANTS DependsOnRequest NothingLost Emit\nCHECK_DEADLOCK FALSE\nCONSTANTS\n Design = \"%s\"\n EmitOn = %s\n MaxLen = %d\n"
TOKEN = re.compile(r"2n|sa|ssa|mm|mf|msf|mt|msq|msqm|mtm|node|(?!greenland|tpxo|eot|re1|dtu|fes|hamc|hamt)\d?[a-z]{1,6}\d'?$")
ALIAS = {"2n": "2n2", "e2": "eps2", "la2": "lambda2", "sig1": "sigma1", "mt": "mtm"}
ATTRS = ("constituents", "minor", "flexure", "format", "grid_file", "model_file", "name", "projection", "reference", "scale", "type", "variable", "version")
MULTI = ("m2", "k1", "2n2")
PROJ = {"stere-90": "CATS2008", "stere90": "PSNorth", "aeqd": "AEDNorth"}


def cons_of(path):
    """the constituent that the name of a file stands for"""
    stem = pathlib.Path(path).name.lower()
    out = [t for t in (re.sub(r"(load|x)$", "", x) for x in re.split(r"[^a-z0-9']+", stem)) if TOKEN.fullmatch(t) and not re.fullmatch(r"v\d", t)]
    return ALIAS.get(out[0], out[0]) if len(out) == 1 else ""


def plant(path, c, t):
    """constants of a constituent of a file: metres, m2/s"""
    h = zlib.crc32(f"{path}|{c}|{t}".encode())
    return [(1 + (h >> s) % 199) * (1 if (h >> (s + 8)) & 1 else -1) for s in (0, 12)]


def listed(mf):
    return mf if isinstance(mf, list) else [mf]


class Place:
    """the files of a named model, with constants that are the same everywhere"""
    def __init__(self, root):
        self.root = pathlib.Path(root)
        self.rng = np.random.default_rng(5)
        self.done = set()

    def ds(self, entry, files, t):
        proj = entry.get("projection")
        kw = dict(x0=15.0, dx=30.0, W=12)
        if isinstance(proj, dict):
            nm = PROJ[proj["proj"] + (str(proj["lat_0"]) if proj["proj"] == "stere" else "")]
            kw = dict(x0=500.0, y0=-900.0, dx=8.0, dy=8.0, W=6, glob=False, proj=nm)
        cons = self.cons(entry, files)
        ds = M.DS(self.rng, wet=np.ones((5, kw["W"]), bool), constdepth=100, cons=cons, **kw)
        for tt in "zuv":
            for i, c in enumerate(cons):
                f = files[0] if len(files) == 1 else files[i]
                ds.values(tt)[i] = np.array(plant(f, c, tt))
        return ds

    @staticmethod
    def cons(entry, files):
        if entry["format"] in ("OTIS", "TMD3", "ATLAS-compact") and len(files) == 1:
            return list(MULTI)
        return [cons_of(f) for f in files]

    def write(self, entry, kind, gz):
        f = entry["format"]
        mf = entry["model_file"]
        comps = mf if isinstance(mf, dict) else {"z": mf}
        for t, files in comps.items():
            files = listed(files)
            ds = self.ds(entry, files, t)
            P = [self.root / x for x in files]
            for p in P:
                p.parent.mkdir(parents=True, exist_ok=True)
            if entry.get("grid_file"):
                g = self.root / entry["grid_file"]
                g.parent.mkdir(parents=True, exist_ok=True)
            else:
                g = None
            if f == "OTIS":
                M.otis_grid(g, ds)
                w = M.otis_uv if kind == "current" else M.otis_elev
                for i, p in enumerate(P):
                    w(p, ds, range(len(ds.cons)) if len(P) == 1 else [i])
            elif f == "TMD3":
                M.tmd3(P[0], ds, range(len(ds.cons)))
            elif f == "ATLAS-compact":
                for p in P + [g]:
                    p.write_bytes(b"")
            elif f == "ATLAS-netcdf":
                M.atlas_grid(g, ds); self.zip(g, gz)
                for i, p in enumerate(P):
                    M.atlas_con(p, ds, i, "z" if kind == "elevation" else "uv", 1e3 if kind == "elevation" else 1e4)
                    self.zip(p, gz)
            else:
                for i, p in enumerate(P):
                    if f == "GOT-ascii":
                        M.got_ascii(p, ds, i, 1e3 if entry["variable"] == "tide_load" else 1e2)
                    elif f == "GOT-netcdf":
                        M.got_netcdf(p, ds, i, 1e3 if entry["variable"] == "tide_load" else 1e2)
                    elif f == "FES-netcdf":
                        if kind == "current" and files == listed(comps["u" if t == "v" else "v"]):
                            # both components in one file
                            M.fes_netcdf(p, ds, i, t, entry["version"], 1.0, append=t == "v")
                        else:
                            M.fes_netcdf(p, ds, i, t, entry["version"], 1.0 if kind == "current" else 1e2)
                    self.zip(p, gz)

    def zip(self, p, gz):
        """both the file and its compressed copy"""
        import gzip
        if gz and pathlib.Path(p).exists():
            with gzip.open(str(p) + ".gz", "wb") as fid:
                fid.write(pathlib.Path(p).read_bytes())

    def where(self, entry):
        """a place in the middle of the model"""
        files = entry["model_file"]
        files = listed(files["u"] if isinstance(files, dict) else files)
        ds = self.ds(entry, files, "z")
        return M.lonlat(ds, "z", [(9, 9)])

    def planted(self, entry, t):
        mf = entry["model_file"]
        if isinstance(mf, dict):
            files = listed(mf[t.lower()] if t.lower() in mf else mf["u"])
        else:
            files = listed(mf)
        cons = self.cons(entry, files)
        # both components of the files of one product are written from the component that is read last
        own = files
        if isinstance(mf, dict) and entry["format"] == "ATLAS-netcdf":
            own = listed(mf[t.lower()])
        return [dict(c=c, re=1000 * plant(own[0] if len(own) == 1 else own[i], c, t.lower())[0], im=1000 * plant(own[0] if len(own) == 1 else own[i], c, t.lower())[1]) for i, c in enumerate(cons)]


def text(x):
    if isinstance(x, pathlib.Path):
        return str(x)
    if isinstance(x, dict):
        return {str(k): text(v) for k, v in sorted(x.items())}
    if isinstance(x, (list, tuple)):
        return [text(v) for v in x]
    return x


def expected(entry, root, gz=""):
    """attributes that a definition gives to an object"""
    e = {a: None for a in ATTRS}
    e["flexure"] = False
    e.update(copy.deepcopy(entry))
    full = lambda f: [full(x) for x in f] if isinstance(f, list) else str(pathlib.Path(root) / (f + gz))
    e["model_file"] = {k: full(v) for k, v in entry["model_file"].items()} if isinstance(entry["model_file"], dict) else full(entry["model_file"])
    if e["grid_file"]:
        e["grid_file"] = full(e["grid_file"])
    if e["format"].startswith("FES"):
        f = entry["model_file"]
        e["constituents"] = [cons_of(x) for x in listed(f["u"] if isinstance(f, dict) else f)]
    return {k: text(v) for k, v in e.items()}


def entries(ctx, db, P, recs):
    import pyTMD.io
    lists = dict(OTIS=("OTIS",), ATLAS_compact=("ATLAS-compact",), TMD3=("TMD3",), ATLAS=("ATLAS-netcdf",), GOT=("GOT-ascii", "GOT-netcdf"), FES=("FES-ascii", "FES-netcdf"))
    for nm, fs in lists.items():
        recs.append(dict(kind="lookup class", status="ok", listed=sorted(getattr(pyTMD.io.model, nm)()), expected=sorted(k for k, v in db["elevation"].items() if v["format"] in fs), key=f"class|{nm}"))
    for nm, w in (("ocean_elevation", ("tide_ocean", "tide_lpe")), ("load_elevation", ("tide_load",))):
        recs.append(dict(kind="lookup class", status="ok", listed=sorted(getattr(pyTMD.io.model, nm)()), expected=sorted(k for k, v in db["elevation"].items() if v["variable"] in w), key=f"class|{nm}"))
    recs.append(dict(kind="lookup class", status="ok", listed=sorted(pyTMD.io.model.ocean_current()), expected=sorted(db["current"]), key="class|ocean_current"))
    for what in db:
        for name, entry in db[what].items():
            for gz in ("", ".gz"):
                if gz and entry["format"] not in ("ATLAS-netcdf", "GOT-ascii", "GOT-netcdf", "FES-netcdf"):
                    continue
                m = pyTMD.io.model(P.root if ctx.rng.random() < 0.5 else str(P.root), compressed=bool(gz))
                o = call(getattr(m, what), name)
                r = dict(kind="entry", status=o.err or "ok", msg=o.msg, what=what, asked=name, key=f"entry|{what}|{name}{gz}")
                if o.ok:
                    mf = m.model_file
                    comps = {k: listed(v) for k, v in mf.items()} if isinstance(mf, dict) else {"z": listed(mf)}
                    every = [f for v in comps.values() for f in v] + ([m.grid_file] if m.grid_file else [])
                    main = comps.get("u", comps.get("z"))
                    perfile = m.format not in ("OTIS", "TMD3", "ATLAS-compact") or len(main) > 1
                    names = [cons_of(str(f)[:len(str(f)) - len(gz)]) for f in main]
                    r.update(name=name if name.startswith(m.name or "?") else f"{m.name}", format=m.format, type=",".join(m.type) if isinstance(m.type, list) else str(m.type), variable=m.variable or "",
                             products=[getattr(m, a) or "" for a in ("atl03", "atl06", "atl07", "atl10", "atl11", "atl12", "gla12")] + ["" if isinstance(m.long_name, dict) else m.long_name or ""],
                             scale=q(m.scale, 1e6) if m.scale is not None else 0, corrections=m.corrections, fileformat=m.file_format, grid=m.grid_file is not None, projection=bool(m.projection),
                             version=bool(m.version), inside=all(P.root in pathlib.Path(f).parents and ".." not in str(f) for f in every), exists=all(pathlib.Path(f).is_file() for f in every),
                             distinct=all(len(set(map(str, v))) == len(v) for v in comps.values()) and str(m.grid_file) not in ([str(f) for f in main] if m.format != "TMD3" else []),
                             components=sorted(comps), perfile=perfile, files=len(main), consseq=names if perfile else [], attr=m.constituents or [],
                             consv=[cons_of(str(f)[:len(str(f)) - len(gz)]) for f in comps["v"]] if "v" in comps else [],
                             listed=name in (pyTMD.io.model.ocean_current() if what == "current" else pyTMD.io.model.ocean_elevation() + pyTMD.io.model.load_elevation()),
                             clean=M.database() == db)
                    d = expected(entry, P.root, gz)
                    bad = [a for a in d if text(getattr(m, a, None)) != d[a]]
                    recs.append(dict(kind="look", status="ok", name="n", dbs=[{"n": "D"}], missing=[], done=True, got="D", stale=bad, key=f"attributes|{what}|{name}{gz}"))
                recs.append(r)
                if o.ok and m.format != "ATLAS-compact":
                    for t in ("z",) if what == "elevation" else ("u", "v") + (("U", "V") if m.format != "FES-netcdf" else ()):
                        recs.append(values(ctx, P, m, entry, t, f"values|{what}|{name}|{t}{gz}"))
            # nothing to be found
            for k in range(2):
                gone = ctx.scratch / "empty"
                gone.mkdir(exist_ok=True)
                m = pyTMD.io.model(gone, compressed=bool(k))
                o = call(getattr(m, what), name)
                recs.append(dict(kind="missing", status="ok", done=o.ok, named=o.err == "FileNotFoundError", key=f"missing|{what}|{name}|{k}"))
                m = pyTMD.io.model(gone, verify=False, compressed=bool(k))
                o = call(getattr(m, what), name)
                d = expected(entry, gone, ".gz" if k else "")
                recs.append(dict(kind="look", status=o.err or "ok", msg=o.msg, name="n", dbs=[{"n": "D"}], missing=[], done=True, got="D", stale=[a for a in d if text(getattr(m, a, None)) != d[a]], key=f"unverified|{what}|{name}|{k}"))


def values(ctx, P, m, entry, t, key, how="extract"):
    lon, lat = P.where(entry)
    r = dict(kind="values", key=key, plant=P.planted(entry, t))
    def run():
        if how == "extract":
            a, p, c = m.extract_constants(lon, lat, type=t, method="spline" if ctx.rng.random() < 0.5 else "linear")
        else:
            if how == "read":
                m.read_constants(type=t)
            a, p = m.interpolate_constants(lon, lat, type=t)
            c = m._constituents.fields
        return a, p, list(c)
    o = call(run)
    r.update(status=o.err or "ok", msg=o.msg)
    if o.ok:
        a, p, c = o.value
        a, p = np.ma.atleast_2d(a), np.ma.atleast_2d(p)
        if a.shape != (1, len(c)):
            r.update(status="Shape")
            return r
        h = a.data[0] * np.exp(-1j * np.radians(p.data[0]))
        r.update(names=c, ok=[not bool(np.ma.getmaskarray(a)[0, k]) for k in range(len(c))], re=[q(v.real, 1e3) for v in h], im=[q(v.imag, 1e3) for v in h])
    return r


def drivers(ctx, db, P, recs):
    """the drivers by name of the model, with the corrections of its producer"""
    import pyTMD.compute
    corr = {"OTIS": "OTIS", "TMD3": "TMD3", "ATLAS-netcdf": "ATLAS", "GOT-ascii": "perth3", "GOT-netcdf": "GOT", "FES-netcdf": "FES"}
    t = np.array([0.0, 5e6, 3e8])
    for what in db:
        for name, entry in db[what].items():
            if entry["format"] == "ATLAS-compact" or (not ctx.thorough and ctx.rng.random() < 0.5):
                continue
            gz = entry["format"] in ("ATLAS-netcdf", "GOT-ascii", "GOT-netcdf", "FES-netcdf") and ctx.rng.random() < 0.4
            lon, lat = P.where(entry)
            lon, lat = np.repeat(lon, 3), np.repeat(lat, 3)
            f = pyTMD.compute.tide_elevations if what == "elevation" else pyTMD.compute.tide_currents
            def run():
                a = f(lon, lat, t, DIRECTORY=P.root, MODEL=name, GZIP=gz, EPSG=4326, EPOCH=(2000, 1, 1, 0, 0, 0), TYPE="drift", TIME="UTC")
                d = expected(entry, P.root)
                d = {k: v for k, v in d.items() if v is not None and k != "flexure"}
                fn = ctx.scratch / "def.json"
                fn.write_text(json.dumps(d))
                b = f(lon, lat, t, DEFINITION_FILE=fn, CORRECTIONS=corr[entry["format"]], EPSG=4326, EPOCH=(2000, 1, 1, 0, 0, 0), TYPE="drift", TIME="UTC")
                return a, b
            o = call(run)
            for u in ("z",) if what == "elevation" else ("u", "v"):
                for k in range(3):
                    r = dict(kind="driver", status=o.err or "ok", msg=o.msg, key=f"driver|{what}|{name}|{u}|{k}")
                    if o.ok:
                        a, b = [np.ma.array(x if u == "z" else x[u]) for x in o.value]
                        r.update(val=q(a.filled(1e9)[k], 1e7), ref=q(b.filled(-1e9)[k], 1e7))
                    recs.append(r)


def histories(ctx, db, P, cases, recs):
    """one object asked for one model after another"""
    import pyTMD.io
    rng = ctx.rng
    nope = lambda v: v["format"] == "ATLAS-compact"
    elev = [n for n in db["elevation"] if not nope(db["elevation"][n])]
    curr = [n for n in db["current"] if not nope(db["current"][n])]
    sizes = {(w, n): len(listed(v["model_file"]["u"] if isinstance(v["model_file"], dict) else v["model_file"])) for w in db for n, v in db[w].items()}
    small = [n for n in elev if sizes["elevation", n] < 18]
    total = 900 if ctx.thorough else 220
    # half of them read or ask for constants early and ask again at the end
    kept = [x for x in cases if x["hist"][0]["then"] and x["hist"][-1]["then"] == "interp"]
    for j in range(total):
        of = kept if j % 2 and kept else cases
        hist = of[int(rng.integers(len(of)))]["hist"]
        a, b = rng.choice(small, 2, replace=False)
        c = str(rng.choice(curr))
        gone = str(rng.choice([n for n in elev if n not in (a, b, c)]))
        names = dict(a=str(a), b=str(b), c=c, x="Mine", gone=gone, nothing=["", "nothing", "fes2014", "tpxo9"][int(rng.integers(4))])
        ds = {}
        def borrow(kind, tag):
            n = str(rng.choice(small if kind == "elevation" else curr))
            e = copy.deepcopy(db[kind][n])
            e["reference"] = f"https://{tag}"
            if rng.random() < 0.3:
                e["minor"] = ["2q1", "sigma1"]
            return e
        X, A2, C2, X2 = borrow("elevation", "X"), borrow("elevation", "A2"), borrow("current", "C2"), borrow("current", "X2")
        over = {"elevation": {names["a"]: A2}, "current": {names["c"]: C2, "Mine": X2}}
        adds = {"elevation": {"Mine": X}}
        if rng.random() < 0.5:
            adds["current"] = {}
        fa, fo = ctx.scratch / "adds.json", ctx.scratch / "over.json"
        fa.write_text(json.dumps(adds)); fo.write_text(json.dumps(over, indent=1))
        # the directory of this history does not have the files of one model
        broken = {f"{w}:{names['gone']}" for w in db if names["gone"] in db[w]}
        m = pyTMD.io.model(P.root)
        key = ">".join(f"{op['kind'][:4]}:{op['name']}{'+'.join([''] + op['extra'])}:{op['then']}" for op in hist)
        for i, op in enumerate(hist):
            nm, k = names[op["name"]], op["kind"]
            dbs = [{n: f"{k}:{n}" for n in db[k]}] + [{n: f"{e}:{k}:{n}" for n in (adds if e == "adds" else over).get(k, {})} for e in op["extra"]]
            extra = [str(fa) if e == "adds" else fo for e in op["extra"]]
            # the same object in a directory without the files
            m.directory = ctx.scratch / "empty" if op["name"] == "gone" else P.root
            o = call(getattr(m, k), nm, extra_databases=extra) if extra or rng.random() < 0.5 else call(getattr(m, k), nm)
            want = ""
            for d in dbs:
                want = d.get(nm, want)
            entry = (db if want.startswith(k) else adds if want.startswith("adds") else over)[k][nm] if want else None
            r = dict(kind="look", status="ok", msg=o.msg, name=nm, dbs=[{n: v for n, v in d.items() if n == nm} for d in dbs], missing=sorted(broken), done=o.ok, got="", stale=[], key=f"look|{key}|{i}|{o.err}")
            if o.ok and entry is not None:
                d = expected(entry, P.root)
                r["stale"] = [x for x in d if text(getattr(m, x, None)) != d[x]]
                r["got"] = want if set(r["stale"]) - {"minor", "constituents", "version", "scale", "projection", "grid_file", "variable"} == set() else "?"
            recs.append(r)
            if o.ok and entry is not None and op["then"]:
                t = "z" if k == "elevation" else str(rng.choice(["u", "v"]))
                recs.append(values(ctx, P, m, entry, t, f"{op['then']}|{key}|{i}", how="read" if op["then"] == "read" else str(rng.choice(["interp", "interp", "extract"]))))


def merges(ctx, db, recs):
    import pyTMD.io
    rng = ctx.rng
    for j in range(60 if ctx.thorough else 20):
        files, tabs = [], []
        for i in range(int(rng.integers(0, 4))):
            tab = {}
            for kind in ("elevation", "current"):
                if rng.random() < 0.7:
                    ns = list(rng.choice(list(db[kind]) + ["Mine", "Other", "Third"] * 6, int(rng.integers(0, 4))))
                    tab[kind] = {str(n): dict(db[kind]["CATS2008"], name=str(n), reference=f"{i}") for n in ns}
            f = ctx.scratch / f"db{i}.json"
            f.write_text(json.dumps(tab))
            files.append(str(f) if rng.random() < 0.5 else f); tabs.append(tab)
        keep = list(files)
        o = call(pyTMD.io.load_database, files) if rng.random() < 0.5 else call(pyTMD.io.load_database, extra_databases=files)
        for kind in ("elevation", "current"):
            r = dict(kind="merge", status=o.err or "ok", msg=o.msg, key=f"merge|{kind}|{len(files)}", clean=files == keep and M.database() == db)
            if o.ok:
                got = o.value[kind]
                names = sorted(set(got) & {n for t in tabs for n in t.get(kind, {})}) + [n for n in sorted(db[kind]) if n in got and not any(n in t.get(kind, {}) for t in tabs)]
                def src(n):
                    for i in range(len(tabs) - 1, -1, -1):
                        if got[n] == tabs[i].get(kind, {}).get(n):
                            return f"{i}"
                    return "built" if got[n] == db[kind].get(n) else "?"
                names = sorted(got)
                r.update(names=names, dbs=[{n: "built" for n in db[kind]}] + [{n: f"{i}" for n in t.get(kind, {})} for i, t in enumerate(tabs)])
                r["from"] = [src(n) for n in names]
            recs.append(r)


def main(ctx):
    import pyTMD.io, pyTMD.compute
    cases = ctx.model("RegistryMC", CFG % ("sound", "TRUE", 2), name="histories of lookups")
    for d in ("merged attributes", "kept constants", "sections replaced"):
        ctx.refute("RegistryMC", CFG % (d, "FALSE", 2), name=d)
    M.fast_crs()
    db = M.database()
    P = Place(ctx.scratch / "root")
    for what in ("elevation", "current"):
        for name, entry in db[what].items():
            P.write(entry, what, gz=True)
    recs = []
    entries(ctx, db, P, recs)
    merges(ctx, db, recs)
    histories(ctx, db, P, cases, recs)
    drivers(ctx, db, P, recs)
    can = []
    for k, f in (("entry", dict(scale=5)), ("values", None), ("look", dict(stale=["scale"])), ("driver", dict(val=123456)), ("merge", dict(names=["a"]))):
        g = [r for r in recs if r["kind"] == k and r["status"] == "ok" and (k != "entry" or r["format"].startswith("GOT")) and (k != "look" or r["done"])]
        if g:
            r = g[len(g) // 2]
            can.append(dict(r, **(f if f is not None else dict(re=[x + 50 for x in r["re"]]))))
    ctx.validate("RegistryTrace", recs, canaries=can, cfg="SPECIFICATION TraceSpec\nPOSTCONDITION Consumed\nCHECK_DEADLOCK FALSE\n")
    ctx.assumptions += ["units of the producers: centimetres (FES, GOT), millimetres (GOT load, ATLAS), cm/s, cm2/s", "ATLAS-compact entries are resolved but not read"]
