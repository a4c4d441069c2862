"""C15: exporting and importing model definitions"""
import copy
import io
import json
import os
import pathlib
import numpy as np
from vlib import *
import models as M
import mgen
import c14

CFG = "SPECIFICATION Spec\nINVARIANTS Independent Emit\nCHECK_DEADLOCK FALSE\nCONSTANTS\n Design = \"%s\"\n EmitOn = %s\n MaxLen = %d\n"
FIELDS = ("name", "format", "type", "grid_file", "model_file", "projection", "variable", "scale", "constituents", "version", "reference", "minor", "compressed")
OUTER, INNER = "outer-mark", "inner-mark"


def plain(x):
    if isinstance(x, dict):
        return all(type(k) is str and plain(v) for k, v in x.items())
    if isinstance(x, (list, tuple)):
        return all(plain(v) for v in x)
    return x is None or type(x) in (str, int, float, bool)


def leaves(x):
    return [y for v in (x.values() if isinstance(x, dict) else x) for y in leaves(v)] if isinstance(x, (dict, list, tuple)) else [x]


def kinds(x):
    """the same value with the types of its leaves"""
    if isinstance(x, dict):
        return {str(k): kinds(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [kinds(v) for v in x]
    return f"{'path' if isinstance(x, pathlib.PurePath) else type(x).__name__}:{x}"


def attrs(m):
    return {a: c14.text(getattr(m, a, None)) for a in FIELDS}


# -- histories ---------------------------------------------------------------
class Obj:
    """an object of the history: part = the attribute with an outer and an inner cell"""
    def __init__(self, o, part):
        self.o, self.part = o, part

    def top(self):
        return self.o[self.part] if isinstance(self.o, dict) else getattr(self.o, self.part)

    def deep(self):
        t = self.top()
        if isinstance(t, dict):
            v = t["u"]
            return v if isinstance(v, list) else None
        return None

    def change(self, level):
        t = self.top()
        if level == "outer":
            n = self.value()[0]
            t[f"w{n}"] = OUTER
        else:
            d = self.deep()
            d.append(INNER)

    def value(self):
        t = self.top()
        d = self.deep()
        forms = {("path" if isinstance(x, pathlib.PurePath) else "text") for x in d if x != INNER and str(x) != INNER}
        return [sum(1 for k in t if k.startswith("w")), sum(1 for x in d if str(x) == INNER), forms.pop() if len(forms) == 1 else "mixed"]


def histories(ctx, cases, P, db, recs):
    import pyTMD.io
    rng = ctx.rng
    n = 4000 if ctx.thorough else 700
    names = [k for k, v in db["current"].items() if isinstance(v["model_file"]["u"], list)]
    for j in rng.choice(len(cases), size=min(n, len(cases)), replace=False):
        hist = cases[int(j)]["hist"]
        name = str(rng.choice(names))
        if rng.random() < 0.5:
            m = pyTMD.io.model(P.root).current(name)
        else:
            d = c14.expected(db["current"][name], P.root)
            d = {k: v for k, v in d.items() if v is not None}
            m = pyTMD.io.model().from_file(io.StringIO(json.dumps(d)))
        objs = [Obj(m, "model_file")]
        key = ">".join(f"{op['f']}{op['i']}{'s' if op['ser'] else ''}" for op in hist)
        r = dict(kind="history", status="ok", msg="", hist=hist, vals=[], key=f"history|{m.format}|{key}")
        for op in hist:
            x = objs[op["i"] - 1]
            if op["f"] == "export":
                o = call(x.o.to_dict, serialize=op["ser"]) if rng.random() < 0.7 else call(x.o.to_dict, serialize=op["ser"], fields=list(FIELDS))
            elif op["f"] == "from_dict":
                o = call(pyTMD.io.model().from_dict, x.o)
            elif op["f"] == "from_file":
                def imported():
                    t = {k: (v if k != "model_file" else {q_: w for q_, w in v.items() if not q_.startswith("w")}) for k, v in x.o.items()}
                    extra = {q_: w for q_, w in x.o["model_file"].items() if q_.startswith("w")}
                    y = pyTMD.io.model().from_file(io.StringIO(json.dumps(t)))
                    y.model_file.update(extra)
                    return y
                o = call(imported)
            else:
                o = call(x.change, op["f"])
            if not o.ok:
                r.update(status=o.err, msg=o.msg)
                break
            if op["f"] in ("export", "from_dict", "from_file"):
                objs.append(Obj(o.value, "model_file"))
        if r["status"] == "ok":
            v = call(lambda: [x.value() for x in objs])
            r.update(status=v.err or "ok", msg=v.msg, vals=v.value)
        recs.append(r)


# -- round trips -------------------------------------------------------------
def models_(ctx, P, db):
    """models of every kind: named, from definitions, compressed, with attributes of a user"""
    import pyTMD.io
    rng = ctx.rng
    for what in db:
        for name, e in db[what].items():
            gz = e["format"] in ("ATLAS-netcdf", "GOT-ascii", "GOT-netcdf", "FES-netcdf") and rng.random() < 0.4
            m = getattr(pyTMD.io.model(P.root, compressed=bool(gz)), what)(name)
            if rng.random() < 0.3:
                m.minor = ["2q1", "sigma1", "rho1"]
            yield f"{what}|{name}|{'gz' if gz else ''}{'minor' if m.minor else ''}", m, e, ("z" if what == "elevation" else str(rng.choice(["u", "v"]))) if e["format"] != "ATLAS-compact" else None


def trips(ctx, P, db, recs):
    import pyTMD.io
    rng = ctx.rng
    for key, m, e, t in models_(ctx, P, db):
        for how in ("json file", "stream", "dict", "dict serialized"):
            before = kinds({a: getattr(m, a) for a in FIELDS})
            ser = how != "dict"
            o = call(m.to_dict, serialize=ser)
            r = dict(kind="trip", key=f"trip|{key}|{how}", status=o.err or "ok", msg=o.msg, before=json.dumps(before))
            m2 = None
            if o.ok:
                d = o.value
                r["plain"] = plain(d) if ser else True
                def back():
                    if how == "json file":
                        f = ctx.scratch / "out.json"
                        f.write_text(json.dumps(d))
                        return pyTMD.io.model().from_file([f, str(f)][int(rng.integers(2))])
                    if how == "stream":
                        s = [io.StringIO(json.dumps(d)), io.BytesIO(json.dumps(d, indent=2).encode())][int(rng.integers(2))]
                        return pyTMD.io.model().from_file(s)
                    return pyTMD.io.model().from_dict(d)
                w = call(back)
                r.update(status=w.err or "ok", msg=w.msg)
                if w.ok:
                    m2 = w.value
                    a, b = attrs(m), attrs(m2)
                    fs = leaves(m2.model_file) + ([m2.grid_file] if m2.grid_file else [])
                    r.update(differ=[k for k in FIELDS if a[k] != b[k]], after=json.dumps(kinds({x: getattr(m, x) for x in FIELDS})),
                             files=how == "dict serialized" or (all(isinstance(f, pathlib.Path) for f in fs) and all(os.path.exists(f) for f in fs)),
                             fields=not any(v is None for v in d.values()))
            recs.append(r)
            if m2 is not None and t and (ctx.thorough or rng.random() < 0.4):
                lon, lat = P.where(e)
                r = dict(kind="use", key=f"use|{key}|{t}|{how}")
                o = call(lambda: [x.extract_constants(lon, lat, type=t) for x in (m, m2)])
                r.update(status=o.err or "ok", msg=o.msg)
                if o.ok:
                    (a1, p1, c1), (a2, p2, c2) = o.value
                    f = lambda a, p: [q(v, 1e4) for v in np.concatenate((np.ma.filled(a, 9e4).ravel(), np.ma.filled(p, 9e4).ravel()))]
                    r.update(names=list(c1), names2=list(c2), vals=f(a1, p1), vals2=f(a2, p2))
                recs.append(r)
    # objects without files, with an empty list, and chosen fields
    for key, kw in (("new", {}), ("empty list", dict(model_file=[])), ("empty tuple", dict(constituents=())), ("nested", dict(model_file=dict(u=[], v=[pathlib.Path("a")]))), ("nested path", dict(model_file=dict(u=pathlib.Path("u"), v=(pathlib.Path("v"),))))):
        m = pyTMD.io.model()
        for k, v in kw.items():
            setattr(m, k, v)
        before = json.dumps(kinds({a: getattr(m, a) for a in FIELDS}))
        o = call(lambda: json.loads(json.dumps(m.to_dict(serialize=True))))
        r = dict(kind="trip", key=f"trip|{key}", status=o.err or "ok", msg=o.msg, before=before, plain=True, files=True)
        if o.ok:
            m2 = pyTMD.io.model().from_dict(o.value)
            a, b = attrs(m), attrs(m2)
            r.update(differ=[k for k in FIELDS if a[k] != b[k]], after=json.dumps(kinds({x: getattr(m, x) for x in FIELDS})), fields=True)
        recs.append(r)


class Listing:
    """a file system that lists its entries in an order of its own"""
    def __init__(self, rng):
        self.rng, self.scandir, self.listdir = rng, os.scandir, os.listdir

    def __enter__(self):
        outer = self
        class Scan:
            def __init__(self, path="."):
                with outer.scandir(path) as it:
                    e = list(it)
                outer.rng.shuffle(e)
                self.it = iter(e)
            def __iter__(self):
                return self.it
            def __next__(self):
                return next(self.it)
            def __enter__(self):
                return self
            def __exit__(self, *a):
                pass
            def close(self):
                pass
        def listdir(path="."):
            e = outer.listdir(path)
            outer.rng.shuffle(e)
            return e
        os.scandir, os.listdir = Scan, listdir

    def __exit__(self, *a):
        os.scandir, os.listdir = self.scandir, self.listdir


# -- definition files --------------------------------------------------------
def definitions(ctx, recs):
    """files given by name or pattern, relative to a directory or not; files of the two components made in different orders"""
    import pyTMD.io
    rng = ctx.rng
    cons = ["m2", "k1", "2n2", "o1", "s2", "q1"]
    for j in range(140 if ctx.thorough else 60):
        fmt, kind = [("FES-netcdf", "uv"), ("ATLAS-netcdf", "uv"), ("FES-netcdf", "z"), ("GOT-netcdf", "z"), ("OTIS", "z"), ("OTIS", "uv"), ("ATLAS-netcdf", "z"), ("GOT-ascii", "z")][j % 8]
        root = ctx.scratch / f"def{j}"
        n = int(rng.integers(2, len(cons) + 1))
        cs = [str(c) for c in rng.permutation(cons)[:n]]
        comps = ("u", "v") if kind == "uv" and fmt != "OTIS" else ("u",) if kind == "uv" else ("z",)
        files = {}
        for t in comps:
            (root / t).mkdir(parents=True)
            order = rng.permutation(cs)
            for c in order:
                (root / t / f"{c}_mod.nc").write_bytes(b"")
            files[t] = [root / t / f"{c}_mod.nc" for c in cs]
        (root / "grid").write_bytes(b"")
        how = ["names", "pattern", "patterns", "absolute"][int(rng.integers(4))]
        rel = lambda p: os.path.relpath(p, root)
        mf = {t: [rel(f) for f in files[t]] if how == "names" else f"{t}/*_mod.nc" if how == "pattern" else [f"{t}/*2_mod.nc", f"{t}/*1_mod.nc"] if how == "patterns" else [str(f) for f in files[t]] for t in comps}
        d = dict(name="mine", format=fmt, type="z" if kind == "z" else ["u", "v"], variable="tide_ocean", scale=0.01, version="FES2014", projection="EPSG:4326", model_file=mf["z"] if kind == "z" else mf)
        if fmt in ("OTIS", "ATLAS-netcdf"):
            d["grid_file"] = "grid" if how != "absolute" else str(root / "grid")
        directory = None if how == "absolute" else [root, str(root)][int(rng.integers(2))]
        if rng.random() < 0.2 and fmt.startswith("FES") and how in ("names", "absolute"):
            d["constituents"] = list(cs)
        textual = json.dumps(d, indent=int(rng.integers(3)))
        f = ctx.scratch / f"def{j}.json"
        f.write_text(textual)
        form = ["path", "str", "StringIO", "BytesIO", "open text", "open binary"][int(rng.integers(6))]
        left = True
        if form in ("path", "str"):
            src = f if form == "path" else str(f)
            with Listing(rng):
                o = call(pyTMD.io.model(directory).from_file, src)
        else:
            src = io.StringIO(textual) if form == "StringIO" else io.BytesIO(textual.encode()) if form == "BytesIO" else open(f, "r" if form == "open text" else "rb")
            with Listing(rng):
                o = call(pyTMD.io.model(directory).from_file, src)
            left = not src.closed
            src.close()
        r = dict(kind="definition", key=f"definition|{fmt}|{kind}|{how}|{form}", status=o.err or "ok", msg=o.msg, left=left)
        if o.ok:
            m = o.value
            got = m.model_file if isinstance(m.model_file, dict) else {"z": m.model_file}
            name = lambda p: pathlib.Path(p).name.split("_")[0]
            lst = {t: list(v) for t, v in got.items()}
            key_ = sorted if how in ("pattern", "patterns") else list
            r.update(files=[key_([str(x) for x in lst[t]]) for t in comps], want=[key_([str(x) for x in files[t]]) for t in comps], paths=all(isinstance(x, pathlib.Path) for v in lst.values() for x in v),
                     fu=[name(x) for x in lst[comps[0]]], fv=[name(x) for x in lst[comps[-1]]], cons=list(m.constituents) if fmt.startswith("FES") else [], consw=[name(x) for x in lst[comps[0]]] if fmt.startswith("FES") else [])
        recs.append(r)
    base = dict(name="mine", format="GOT-netcdf", type="z", variable="tide_ocean", scale=0.01, version="5.5", model_file=["m2.nc"])
    for key, d in (("no name", dict(base, name=None)), ("no type", dict(base, type=None)), ("no format", {k: v for k, v in base.items() if k != "format"}), ("unknown format", dict(base, format="XTIDE")),
                   ("no files", {k: v for k, v in base.items() if k != "model_file"}), ("no scale", {k: v for k, v in base.items() if k != "scale"}),
                   ("no projection", dict(base, format="OTIS", grid_file="g")), ("no grid", dict(base, format="OTIS", projection="EPSG:4326")), ("no version", {k: v for k, v in dict(base, format="FES-netcdf").items() if k != "version"}),
                   ("not json", "name mine"), ("truncated", json.dumps(base)[:-4])):
        o = call(pyTMD.io.model().from_file, io.StringIO(d if isinstance(d, str) else json.dumps(d)))
        recs.append(dict(kind="refused", status="ok", raised=not o.ok, key=f"refused|{key}|{o.err}"))


def main(ctx):
    import pyTMD.io
    cases = ctx.model("ExportMC", CFG % ("sound", "TRUE", 5 if ctx.thorough else 4), name="histories of exports and changes")
    for d in ("shared", "shallow", "serialized in place", "shallow import"):
        ctx.refute("ExportMC", CFG % (d, "FALSE", 4), name=d)
    M.fast_crs()
    db = M.database()
    P = c14.Place(ctx.scratch / "root")
    for what in ("elevation", "current"):
        for name, entry in db[what].items():
            P.write(entry, what, gz=True)
    recs = []
    histories(ctx, cases, P, db, recs)
    trips(ctx, P, db, recs)
    definitions(ctx, recs)
    can = []
    for k, f in (("history", dict(vals=[[0, 9, "path"]])), ("trip", dict(differ=["scale"])), ("use", dict(vals2=[1])), ("definition", dict(paths=False))):
        g = [r for r in recs if r["kind"] == k and r["status"] == "ok"]
        if g:
            can.append(dict(g[len(g) // 2], **f))
    ctx.validate("ExportTrace", recs, canaries=can, cfg="SPECIFICATION TraceSpec\nPOSTCONDITION Consumed\nCHECK_DEADLOCK FALSE\n")
