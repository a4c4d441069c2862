"""C19: coordinate reference systems of the models"""
import copy
import json
import numpy as np
from vlib import *
import models as M

CFG = "SPECIFICATION Spec\nINVARIANTS DependsOnArguments Symmetric Emit\nCHECK_DEADLOCK FALSE\nCONSTANTS\n Design = \"%s\"\n EmitOn = %s\n MaxLen = %d\n"
CENTRAL = {"geo": 0, "geo-nad83": 0, "cats": -70, "greenland": -45, "arctic": 270, "3031": 0, "3413": -45, "3857": 0}
SOUTH = ("cats", "3031")
UNIT = dict(cats=1e3, greenland=1e3, arctic=1e3)


def systems():
    db = M.database()
    P = {"geo": "EPSG:4326", "geo-nad83": "EPSG:4269", "3031": "EPSG:3031", "3413": "EPSG:3413", "3857": "EPSG:3857"}
    names = {}
    for t in db:
        for k, v in db[t].items():
            p = v.get("projection")
            if isinstance(p, dict):
                kind = dict(stere="cats" if p.get("lat_0") == -90 else "greenland", aeqd="arctic")[p["proj"]]
                names.setdefault(kind, []).append((k, p))
            elif p is not None:
                names.setdefault("geo", []).append((k, p))
    return P, names


def pick(rng, P, names, s):
    if s in names and (s not in P or rng.random() < 0.5):
        return copy.deepcopy(names[s][int(rng.integers(len(names[s])))][1])
    return P[s]


def shape(rng, a):
    a = np.asarray(a, float)
    k = int(rng.integers(3))
    return a.copy() if k == 0 else a.reshape(1, -1) if k == 1 else np.asfortranarray(np.repeat(a[:, None], 2, axis=1))


def forward(ctx, P, names, recs):
    import pyTMD
    rng = ctx.rng
    for s in CENTRAL:
        polar = s in ("cats", "greenland", "arctic", "3031", "3413")
        lats = [-90, -85, -71, -65, -55] if s in SOUTH else [90, 85, 70, 62, 50] if polar else [-70, -30, 0, 45, 80]
        todo = [p for _, p in names.get(s, [])] + ([P[s]] if s in P else [])
        for proj in todo if ctx.thorough else ([todo[int(j)] for j in rng.choice(len(todo), size=min(3, len(todo)), replace=False)]):
            inner = -1
            for deg in lats:
                turns = rng.choice([-1, 0, 0, 1], size=8) if polar else np.zeros(8, int)
                lon = CENTRAL[s] + 45.0 * np.arange(8) + 360.0 * turns
                # PROJ refuses longitudes beyond ten radians
                lon = np.where(lon > 500.0, lon - 720.0, lon)
                if not polar:
                    lon = (lon + 180) % 360 - 180
                lat = np.full(8, float(deg))
                a, b = shape(rng, lon), shape(rng, lat)
                b = np.broadcast_to(b.ravel()[0], a.shape).copy()
                keep = (a.copy(), b.copy(), copy.deepcopy(proj))
                c = pyTMD.crs()
                d = ["F", "f", "Forward", "FORWARD"][int(rng.integers(4))]
                o = call(c.convert, a, b, proj, d)
                clean = np.array_equal(a, keep[0]) and np.array_equal(b, keep[1]) and proj == keep[2]
                if not o.ok:
                    recs.append(dict(kind="forward", status=o.err, msg=o.msg, key=f"forward|{s}|{deg}"))
                    continue
                x, y = [np.asarray(v, float).reshape(a.shape) for v in o.value]
                same = a.ndim < 2 or a.shape[0] == 1 or (np.array_equal(x[:, 0], x[:, 1]) and np.array_equal(y[:, 0], y[:, 1]))
                if a.ndim == 2 and a.shape[0] > 1:
                    x, y = x[:, 0], y[:, 0]
                x, y = x.ravel(), y.ravel()
                u = UNIT.get(s, 1.0 if s not in ("geo", "geo-nad83") else 1e6)
                rho = np.hypot(x, y) * u
                for k in range(8):
                    recs.append(dict(kind="forward", status="ok", P=s, k=k, deg=deg, lon=q(lon[k], 1e6), lat=q(lat[k], 1e6), x=q(x[k] * u), y=q(y[k] * u), rho=q(rho[k]), rho0=q(rho[0]),
                                     inner=inner, flag=bool(c.is_geographic), clean=clean and same, key=f"forward|{s}|{deg}|{k}"))
                inner = q(rho[0]) if polar else -1
                # and back, with another object, with this one, or by the named direction
                k = int(rng.integers(3))
                c2 = c if k == 1 else pyTMD.crs()
                o2 = call(c2.convert, o.value[0], o.value[1], proj, ["B", "b", "Backward", "inverse-no"][int(rng.integers(3))]) if k < 2 else \
                    call(lambda: c2.get(proj).transform(o.value[0], o.value[1], direction="INVERSE"))
                r = dict(kind="round", status=o2.err or "ok", msg=o2.msg, clean=proj == keep[2], key=f"round|{s}|{deg}|{k}")
                if o2.ok:
                    l2, p2 = [np.asarray(v, float).reshape(a.shape) for v in o2.value]
                    if abs(deg) == 90:
                        l2 = a
                    dl = (l2 - a + 180) % 360 - 180
                    j = int(np.argmax(np.abs(dl) + np.abs(p2 - b)))
                    r.update(lon=0, lon2=q(dl.ravel()[j], 1e6), lat=q(b.ravel()[j], 1e6), lat2=q(p2.ravel()[j], 1e6))
                recs.append(r)


def randoms(ctx, P, names, recs):
    """any points of the hemisphere, there and back, also between two projected systems"""
    import pyTMD
    rng = ctx.rng
    for j in range(400 if ctx.thorough else 150):
        s = list(CENTRAL)[int(rng.integers(len(CENTRAL)))]
        proj = pick(rng, P, names, s)
        n = int(rng.integers(1, 6))
        polar = s not in ("geo", "geo-nad83", "3857")
        lon = rng.uniform(-180, 180 if rng.random() < 0.5 or not polar else 360, n)
        lat = rng.uniform(45, 89.9, n) * (-1 if s in SOUTH else 1) if polar else rng.uniform(-80, 80, n)
        if rng.random() < 0.5 or s in ("geo", "geo-nad83"):
            e, a, b = 4326, lon, lat
        else:
            # coordinates of the caller in another system
            e = ["EPSG:3031", 3031, "3031"][int(rng.integers(3))] if s in SOUTH else ["EPSG:3413", 3413, "3413"][int(rng.integers(3))] if polar else 3857
            a, b = call(pyTMD.crs().convert, lon, lat, e, "F").value
        scalar = n == 1 and rng.random() < 0.5
        if scalar:
            a, b = float(a[0]), float(b[0])
        o = call(lambda: pyTMD.crs().convert(*pyTMD.crs().convert(a, b, proj, "F", EPSG=e), proj, "B", EPSG=e))
        r = dict(kind="round", status=o.err or "ok", msg=o.msg, clean=True, key=f"points|{s}|{e}|n{n}|{scalar}")
        if o.ok:
            l2, p2 = [np.atleast_1d(np.asarray(v, float)) for v in o.value]
            f = 1e6 if e == 4326 else 1.0
            dl = l2 - np.atleast_1d(a)
            dl = (dl + 180) % 360 - 180 if e == 4326 else dl
            k = int(np.argmax(np.abs(dl) + np.abs(p2 - np.atleast_1d(b))))
            r.update(lon=0, lon2=q(dl[k], f), lat=q(np.atleast_1d(b)[k], f), lat2=q(p2[k], f))
        recs.append(r)
        # the same place through longitude and latitude
        if e != 4326 and o.ok:
            w = call(lambda: (pyTMD.crs().convert(a, b, proj, "F", EPSG=e), pyTMD.crs().convert(lon, lat, proj, "F")))
            r = dict(kind="round", status=w.err or "ok", msg=w.msg, clean=True, key=f"via|{s}|{e}|n{n}")
            if w.ok:
                u = UNIT.get(s, 1.0)
                (x1, y1), (x2, y2) = [[np.atleast_1d(v) * u for v in t] for t in w.value]
                k = int(np.argmax(np.abs(x1 - x2) + np.abs(y1 - y2)))
                r.update(lon=q(x1[k]), lon2=q(x2[k]), lat=q(y1[k]), lat2=q(y2[k]))
            recs.append(r)


def objects(ctx, P, names, cases, recs):
    """one object used for several systems and directions"""
    import pyTMD, pyproj
    rng = ctx.rng
    n = 3000 if ctx.thorough else 500
    # places that every system of the machine has: high latitudes of the hemisphere of the system
    for j in rng.choice(len(cases), size=min(n, len(cases)), replace=False):
        hist = cases[j]["hist"]
        c = pyTMD.crs()
        last = "F"; sysm = None; proj = None
        key = ">".join(f"{h['f']}:{h['P']}{h['d']}" for h in hist)
        for i, op in enumerate(hist):
            if op["f"] != "transform":
                sysm, proj = op["P"], pick(rng, P, names, op["P"])
            d = op["d"] or last
            if op["f"] == "convert":
                last = op["d"]
            lon = rng.uniform(-170, 170, 2); lat = rng.uniform(55, 85, 2) * (-1 if sysm in SOUTH or (sysm == "geo" and rng.random() < 0.5) else 1)
            a, b = lon, lat
            # the reference: a fresh transformer of pyproj
            tr = pyproj.Transformer.from_crs(pyproj.CRS.from_epsg(4326), pyproj.CRS.from_user_input(proj), always_xy=True)
            if d == "B":
                a, b = tr.transform(lon, lat)
            if op["f"] == "get":
                o = call(c.get, proj)
            elif op["f"] == "convert":
                o = call(c.convert, a, b, proj, d)
            elif op["d"] == "":
                o = call(c.transform, a, b)
            else:
                o = call(c.transform, a, b, direction=pyproj.enums.TransformDirection.FORWARD if op["d"] == "F" else "INVERSE")
            r = dict(kind="step", status=o.err or "ok", msg=o.msg, P=sysm, geo=False, dir="", wantdir=last, close=True, key=f"{key}|{i}")
            if o.ok:
                r.update(geo=bool(c.is_geographic), dir="F" if c.direction == pyproj.enums.TransformDirection.FORWARD else "B")
                if op["f"] != "get":
                    w = tr.transform(lon, lat) if d == "F" else (lon, lat)
                    f = 1.0 if d == "B" else UNIT.get(sysm, 1.0) * (1e-6 if sysm != "geo" else 1.0)
                    r["close"] = bool(np.allclose(np.array(o.value) * f, np.array(w) * f, rtol=0, atol=2e-6))
            recs.append(r)
            if not o.ok:
                break


def forms(ctx, P, names, recs):
    """a user's system as code, text, dictionary, WKT, JSON or object"""
    import pyTMD, pyproj, pyTMD.compute
    rng = ctx.rng
    codes = [4326, 4269, 3031, 3413, 3976, 3995, 32633, 3857, 2154, 4978 - 0 * 1][:9]
    where = {4326: (12.5, -71.5), 4269: (-100.0, 40.0), 3031: (35.0, -75.0), 3413: (-30.0, 72.0), 3976: (100.0, -68.0), 3995: (10.0, 75.0), 32633: (14.0, 50.0), 3857: (-70.0, 20.0), 2154: (2.0, 46.0)}
    t = np.array([0.0, 43200.0])
    ref = {}
    for code in codes:
        C = pyproj.CRS.from_epsg(code)
        F = dict(int=code, text=str(code), epsg=f"EPSG:{code}", lower=f"epsg:{code}", wkt=C.to_wkt(), json=C.to_json(), dict=C.to_json_dict(), object=C, npint=np.int64(code),
                 urn=f"urn:ogc:def:crs:EPSG::{code}")
        if code in (3031, 3413, 32633):
            F["proj4"] = C.to_proj4()
            F["params"] = pyproj.CRS.from_proj4(C.to_proj4()).to_dict()
        lon, lat = where[code]
        x, y = pyproj.Transformer.from_crs(4326, C, always_xy=True).transform(lon, lat)
        for nm, form in F.items():
            keep = copy.deepcopy(form) if isinstance(form, dict) else form
            def run():
                c = pyTMD.crs().from_input(form)
                lo, la = pyproj.Transformer.from_crs(c, pyproj.CRS.from_epsg(4326), always_xy=True).transform(x, y)
                g = pyTMD.crs().get(form)
                back = pyTMD.crs().convert(np.array([x]), np.array([y]), form, "B")
                via = pyTMD.crs().convert(np.array([x]), np.array([y]), "EPSG:4326", "F", EPSG=form)
                return [(lo, la, c.is_geographic), (back[0][0], back[1][0], g.is_geographic), (via[0][0], via[1][0], c.is_geographic)]
            o = call(run)
            for k in range(3):
                r = dict(kind="form", status=o.err or "ok", msg=o.msg, lon=q(lon, 1e6), lat=q(lat, 1e6), lon2=0, lat2=0, flag=False, wantflag=bool(C.is_geographic), clean=bool(form == keep), key=f"form|{code}|{nm}|{k}")
                if o.ok:
                    lo, la, fl = o.value[k]
                    r.update(lon2=q(lo, 1e6), lat2=q(la, 1e6), flag=bool(fl))
                recs.append(r)
            # through the drivers
            which = [pyTMD.compute.LPET_elevations, pyTMD.compute.SET_displacements, pyTMD.compute.LPT_displacements][int(rng.integers(3))]
            a = call(which, np.array([x]), np.array([y]), t, EPSG=form, EPOCH=(2000, 1, 1, 0, 0, 0), TYPE="time series", TIME="UTC")
            b = call(which, np.array([lon]), np.array([lat]), t, EPSG=4326, EPOCH=(2000, 1, 1, 0, 0, 0), TYPE="time series", TIME="UTC")
            recs.append(dict(kind="driver", status=a.err or "ok", msg=a.msg, val=q(np.ravel(a.value)[0], 1e7) if a.ok else 0, ref=q(np.ravel(b.value)[0], 1e7) if b.ok else -1, tol=3, key=f"driver|{code}|{nm}|{which.__name__}"))
    import pyproj.exceptions
    for bad in ("nonsense", dict(proj="nothing"), 999999, None, "EPSG:0", "", [1, 2]):
        for nm in ("from_input", "get", "convert"):
            c = pyTMD.crs()
            try:
                c.from_input(bad) if nm == "from_input" else c.get(bad) if nm == "get" else c.convert(np.zeros(1), np.zeros(1), bad, "F")
                e = ""
            except Exception as exc:
                e = type(exc).__name__
            recs.append(dict(kind="error", status="ok", raised=e == "CRSError", key=f"error|{nm}|{bad}|{e}"))


def main(ctx):
    import pyTMD, pyTMD.compute
    cases = ctx.model("ProjMC", CFG % ("sound", "TRUE", 4 if ctx.thorough else 3), name="histories of a projection object")
    for d in ("stale system", "stale direction"):
        ctx.refute("ProjMC", CFG % (d, "FALSE", 3), name=d)
    P, names = systems()
    recs = []
    forward(ctx, P, names, recs)
    randoms(ctx, P, names, recs)
    objects(ctx, P, names, cases, recs)
    forms(ctx, P, names, recs)
    can = []
    for k, f in (("forward", dict(x=123, rho=1)), ("round", dict(lat2=7)), ("step", dict(close=False)), ("form", dict(lon2=5)), ("driver", dict(val=123456))):
        g = [r for r in recs if r["kind"] == k and r["status"] == "ok"]
        if g:
            can.append(dict(g[len(g) // 2], **f))
    ctx.validate("ProjTrace", recs, canaries=can, cfg="SPECIFICATION TraceSpec\nPOSTCONDITION Consumed\nCHECK_DEADLOCK FALSE\n")
    ctx.assumptions += ["pyproj gives the transformation of a single system (reference for histories of one object); polar projections are also judged without it"]
