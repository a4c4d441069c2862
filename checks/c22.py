"""C22: tides of the solid earth, alone, in batches, in every layout, and on the lattices of their algebra"""
import gzip
import json
import numpy as np
import drivers as D
from c05 import project
from spk import kernel
from vlib import *

CFG = "SPECIFICATION Spec\nINVARIANTS EachAlone Symmetric Antipodal Published MeanZero Emit\nCHECK_DEADLOCK FALSE\nCONSTANTS\n Design = \"%s\"\n EmitOn = %s\n Big = %s\n"
DCFG = "SPECIFICATION Spec\nINVARIANTS Placed TimesAgree Emit\nCHECK_DEADLOCK FALSE\nCONSTANTS\n Design = \"%s\"\n EmitOn = %s\n"
CINDEX = ['node', 'sa', 'ssa', 'msm', '065.445', 'mm', '065.465', 'msf', '075.355', 'mf', 'mf+', '075.575', 'mst', 'mt', '085.465']
TABLES = ["lpe", "lpt", "opt", "set"]
S = 1e7


def node(i, j, c):
    """coefficient (1e-3) at longitude index i, latitude index j from the south"""
    return (np.asarray(i) * (37 + 11 * c) + np.asarray(j) * (91 + 7 * c) + (np.asarray(i) * np.asarray(j)) % 53 + 113 * c) % 2001 - 1000


def write_map(f):
    """a map in the layout of the published file"""
    i, j = np.meshgrid(np.arange(720), np.arange(360))
    i, j = i.ravel(), j.ravel()
    cols = [0.25 + 0.5 * i, -89.75 + 0.5 * j] + [node(i, j, c) / 1e3 for c in range(6)]
    lines = ["synthetic map of the ocean pole load tide", "  longitude latitude rR rI nR nI eR eI", "-" * 60]
    lines += ["%8.2f %8.2f %12.6f %12.6f %12.6f %12.6f %12.6f %12.6f" % t for t in zip(*cols)]
    with gzip.open(f, "wb", compresslevel=1) as g:
        g.write(("\n".join(lines) + "\n").encode())


class Ctl:
    """module under test with the map of the ocean pole tide, reading it a few times, then from memory"""
    def __init__(self, ctx):
        import pyTMD.io.IERS as I
        self.file = ctx.scratch / "opoleloadcoefcmcor.txt.gz"
        write_map(self.file)
        I._ocean_pole_tide_file = self.file
        self.I, self.read, self.n, self.memo = I, I.read_binary_file, 0, None
        I.read_binary_file = self.reader

    def reader(self, **kw):
        self.n += 1
        if self.memo is None or self.n < 4 or kw.get("model_file", self.file) != self.file:
            self.memo = self.read(**kw)
        return tuple(np.copy(v) for v in self.memo)


def cart(lon, lat, u):
    a, f = float(u.a_axis), float(u.flat)
    e2 = 2 * f - f * f
    p, q_ = np.radians(lat), np.radians(lon)
    n = a / np.sqrt(1 - e2 * np.sin(p)**2)
    return np.c_[n * np.cos(p) * np.cos(q_), n * np.cos(p) * np.sin(q_), n * (1 - e2) * np.sin(p)]


def split(xyz, d, pole=0.0):
    """radial, south and east components of one displacement"""
    x, y, z = [float(v) for v in xyz]
    phi, the = np.arctan2(y, x), np.pi / 2 - np.arctan2(z, np.hypot(x, y))
    r = np.array([np.cos(phi) * np.sin(the), np.sin(phi) * np.sin(the), np.cos(the)])
    s = np.array([np.cos(phi) * np.cos(the), np.sin(phi) * np.cos(the), -np.sin(the)])
    e = np.array([-np.sin(phi), np.cos(phi), 0.0])
    return [float(np.dot(d, b)) for b in (r, s, e)]


def alone(P, pyTMD, which, lon, lat, i, opt, ctl):
    """the value of one point at one instant"""
    ts = D.timescale_at(i)
    if which == "lpe":
        return float(np.ravel(P.equilibrium_tide(ts.tide + ts.tt_ut1, np.array([lat])))[0])
    u = pyTMD.datum(ellipsoid=opt.get("ELLIPSOID", "WGS84"), units="MKS")
    X = cart(lon, lat, u)
    if which == "lpt":
        th = np.pi / 2 - np.arctan2(X[:, 2], np.hypot(X[:, 0], X[:, 1]))
        d = P.load_pole_tide(ts.tide, X, deltat=ts.tt_ut1, gamma_0=u.gamma_0(th), omega=u.omega, h2=0.6207, l2=0.0836, convention=opt.get("CONVENTION", "2018"))
    elif which == "opt":
        gl = np.degrees(np.arctan2(X[:, 2], np.hypot(X[:, 0], X[:, 1])))
        ur, un, ue = ctl.I.extract_coefficients(np.array([lon]), gl, method=opt["METHOD"].lower())
        # radial component alone: the coefficient along the radius
        rh = X / np.linalg.norm(X, axis=1)[:, None]
        d = P.ocean_pole_tide(ts.tide, X, ur[:, None] * rh, deltat=ts.tt_ut1, a_axis=u.a_axis, gamma_0=9.7803278, GM=u.GM, omega=u.omega,
                              rho_w=1025.0, g2=0.6870 + 0.0036j, convention=opt.get("CONVENTION", "2018"))
    else:
        eph = dict(ephemerides="JPL", kernel=ctl.kernel) if opt.get("EPHEMERIDES", "approximate").upper() == "JPL" else {}
        sx, lx = np.c_[pyTMD.astro.solar_ecef(ts.MJD, **eph)], np.c_[pyTMD.astro.lunar_ecef(ts.MJD, **eph)]
        sx, lx = np.reshape(sx, (1, 3)), np.reshape(lx, (1, 3))
        d = P.solid_earth_tide(ts.tide + ts.tt_ut1, X, sx, lx, a_axis=u.a_axis, tide_system=opt.get("TIDE_SYSTEM", "tide_free"))
    return split(X[0], np.ravel(d))[0]


def table(P, pyTMD, which, pts, opt, ctl, refs):
    tab = []
    for lon, lat in pts:
        row = []
        for i in range(len(D.INSTANTS)):
            o = call(alone, P, pyTMD, which, lon, lat, i, opt, ctl)
            ok = o.ok and np.isfinite(o.value)
            row.append(dict(v=bool(ok), val=q(o.value, S) if ok else 0))
        tab.append(row)
    refs.append(tab)
    return len(refs) - 1


FN = dict(lpe="LPET_elevations", lpt="LPT_displacements", opt="OPT_displacements", set="SET_displacements")


def layouts(ctx, rng, pyTMD, P, ctl, refs, recs):
    """requests of DriverMC to the drivers"""
    reqs = ctx.model("DriverMC", DCFG % ("sound", "TRUE"), name="loops of the drivers over every small request")
    pools = []
    n = 3000 if ctx.thorough else 320
    per = 60 if ctx.thorough else 25
    for j, i in enumerate(rng.choice(len(reqs), size=min(n, len(reqs)), replace=False)):
        if j % per == 0:
            which = TABLES[(j // per) % 4]
            # a product of 3 x 3 points, beside the poles and the seams
            xs = sorted(rng.choice([-179.9, -120.3, -45.2, -0.1, 0.4, 33.3, 90.0, 150.7, 179.9], size=3, replace=False))
            ys = sorted(rng.choice([-90.0, -89.2, -67.3, -30.1, 0.0, 12.6, 45.2, 78.4, 89.9, 90.0], size=3, replace=False))
            opt = dict()
            if which != "lpe":
                opt["ELLIPSOID"] = ["CLK66", "WGS84", "INTER", "GRS80", "CLK66", "IERS", "TOPEX", "KRASS"][(j // per) % 7 + int(rng.integers(2))]
            if which in ("lpt", "opt"):
                opt["CONVENTION"] = str(rng.choice(["2003", "2010", "2015", "2018"]))
            if which == "opt":
                opt["METHOD"] = str(rng.choice(["spline", "linear", "nearest", "bilinear", "Spline"]))
            if which == "set":
                if hasattr(pyTMD.astro, "_default_kernel"):
                    opt["EPHEMERIDES"] = str(rng.choice(["approximate", "JPL", "jpl", "Approximate"]))
                opt["TIDE_SYSTEM"] = str(rng.choice(["tide_free", "mean_tide", "Mean_Tide"]))
            pts = [(float(x), float(y)) for y in ys for x in xs]
            ref = table(P, pyTMD, which, pts, opt, ctl, refs)
        request(ctx, rng, pyTMD, reqs[i], which, pts, xs, ys, opt, ref, recs)


def request(ctx, rng, pyTMD, req, which, pts, xs, ys, opt, ref, recs):
    lay, dims = req["layout"], list(req["dims"])
    epsg = D.EPSGS[int(rng.integers(len(D.EPSGS)))] if rng.random() < 0.4 else 4326
    geo = "4326" in str(epsg) or "longlat" in str(epsg)
    axes = lay == "grid" and geo and dims[0] != dims[1] and max(dims[:2]) <= 3 and rng.random() < 0.7
    if axes:
        jy, jx = rng.permutation(3)[:dims[0]], rng.permutation(3)[:dims[1]]
        ix = [int(3 * a + b) for a in jy for b in jx]
        x, y = np.array([xs[b] for b in jx], float), np.array([ys[a] for a in jy], float)
    else:
        ix = [int(v) for v in rng.integers(0, len(pts), size=D.npoints(lay, dims))]
        x, y = np.array([pts[i][0] for i in ix]), np.array([pts[i][1] for i in ix])
        if not geo and (np.abs(y).max() > 80 or (epsg in (3031, "EPSG:3031") and y.max() > 55) or (epsg == 3413 and y.min() < -55) or "laea" in str(epsg) or "merc" in str(epsg)):
            epsg, geo = 4326, True
    if geo and rng.random() < 0.4:
        x = np.where(x < 0, x + 360.0, x)
    if not geo:
        x, y = [np.array(v, float) for v in project(epsg, x, y)]
    if lay == "grid" and not axes:
        x, y = x.reshape(dims[:2]), y.reshape(dims[:2])
    ninst = len(D.INSTANTS) if req["std"] in ("UTC", "datetime") else len(D.INSTANTS) - 1
    tix = [int(v) for v in rng.integers(0, ninst, size=D.ninst(lay, dims))]
    dt, epoch, std = D.times(req, tix)
    spell = D.SPELL[lay][req["spell"]]
    if spell is None and not D.auto_ok(lay, dims, x, y, dt):
        spell = lay
    if np.size(x) == 1 and lay != "grid" and rng.random() < 0.4:
        x, y = float(np.ravel(x)[0]), float(np.ravel(y)[0])
    if req["std"] != "datetime" and rng.random() < 0.3:
        std = std.lower()
    kw = dict(opt, EPSG=epsg, EPOCH=epoch, TYPE=spell, TIME=std)
    fill = np.nan
    if which in ("lpt", "opt"):
        kw["FILL_VALUE"] = fill = float([np.nan, -9999.0, 1e20][int(rng.integers(3))])
    x0, y0, t0 = [np.array(v, copy=True) for v in (x, y, dt)]
    dep = rng.random() < 0.05
    fn = getattr(pyTMD.compute, FN[which]) if not dep else (lambda *a, **k: pyTMD.compute.corrections(*a, CORRECTION=FN[which].split("_")[0], **k)) if rng.random() < 0.5 else getattr(pyTMD, f"compute_{FN[which].split('_')[0]}_corrections", getattr(pyTMD.compute, FN[which]))
    if which == "lpe" and rng.random() < 0.2:
        kw.update(CORRECTION=["equilibrium", "LPET"][0]); kw.pop("CORRECTION")
    o = call(fn, x, y, dt, **kw)
    r = dict(layout=lay, dims=dims, shape=[], status=o.err or "ok", msg=o.msg, ref=ref, mod=-1, meth="", extrap=False, cut=-1, pix=[i + 1 for i in ix],
             tix=[i + 1 for i in tix], pts=[[0, 0] for _ in ix], tol=4, kept=bool(np.array_equal(x0, x) and np.array_equal(y0, y) and np.array_equal(t0, dt)),
             fillok=True, v=[], val=[], key=f"{FN[which]}|{lay}|{dims}|{spell}|{std}|{epoch[0]}|{epsg}|{opt}")
    if o.ok:
        a = o.value
        r["shape"] = [int(n) for n in np.shape(a)]
        if np.ma.isMaskedArray(a):
            r["v"], r["val"] = D.flat(a, S)
            r["fillok"] = D.fill_ok(a, fill)
        else:
            d = np.asarray(a).ravel()
            r["v"] = [bool(np.isfinite(v)) for v in d]
            r["val"] = [q(v, S) if np.isfinite(v) else 0 for v in d]
    recs.append(r)


BP = [(-100.3, 40.2), (12.7, -65.9), (179.6, 3.3)]
BI = [0, 3, 6]


def batches(ctx, rng, pyTMD, P, cases, refs, recs):
    """the functions of pyTMD.predict on batches, in pieces"""
    u = pyTMD.datum(ellipsoid="WGS84", units="MKS")
    X = np.concatenate([cart(a, b, u) for a, b in BP])
    U = np.array([[0.3 + 0.1j, -0.7j, 1.1], [2.0, 0.4 - 0.2j, -1.0j], [-0.5 + 1j, 0.2, 0.9 + 0.9j]])
    TS = [D.timescale_at(i) for i in BI]
    T = np.array([float(t.tide[0]) for t in TS]); DT = np.array([float(t.tt_ut1[0]) for t in TS])
    SX = np.concatenate([np.reshape(np.c_[pyTMD.astro.solar_ecef(t.MJD)], (1, 3)) for t in TS])
    LX = np.concatenate([np.reshape(np.c_[pyTMD.astro.lunar_ecef(t.MJD)], (1, 3)) for t in TS])
    MJD = np.array([float(t.MJD[0]) for t in TS])
    def f(which, p, t):
        p, t = np.asarray(p), np.asarray(t)
        if which == "lpe":
            return np.atleast_1d(P.equilibrium_tide(T[t] + DT[t], np.array([BP[k][1] for k in p])))[:, None]
        if which == "lpt":
            return P.load_pole_tide(T[t], X[p], deltat=DT[t])
        if which == "opt":
            return P.ocean_pole_tide(T[t], X[p], U[p], deltat=DT[t])
        if which == "sun":
            return np.column_stack(pyTMD.astro.solar_ecef(MJD[t])) / 1e9 + 0 * X[p]
        if which == "moon":
            return np.column_stack(pyTMD.astro.lunar_ecef(MJD[t])) / 1e6 + 0 * X[p]
        return P.solid_earth_tide(T[t] + DT[t], X[p], SX[t], LX[t], tide_system="mean_tide" if which == "mean" else "tide_free")
    # values of single points at single instants
    base = {}
    for which in ("lpe", "lpt", "opt", "free", "mean", "sun", "moon"):
        nc = 1 if which == "lpe" else 3
        base[which] = len(refs)
        tabs = [[[None] * 3 for _ in range(3)] for _ in range(nc)]
        for p in range(3):
            for t in range(3):
                o = call(f, which, [p], [t])
                for c in range(nc):
                    tabs[c][p][t] = dict(v=o.ok, val=q(o.value[0, c], S / 10) if o.ok else 0)
        refs.extend(tabs)
    for r in cases:
        which = ["lpe", "lpt", "opt", "free", "mean", "sun", "moon"][int(rng.integers(7))]
        p, t = np.array(r["pt"]) - 1, np.array(r["ti"]) - 1
        def run():
            if r["cut"]:
                return np.concatenate([f(which, p[:r["cut"]], t[:r["cut"]]), f(which, p[r["cut"]:], t[r["cut"]:])])
            return f(which, p, t)
        o = call(run)
        for c in range(1 if which == "lpe" else 3):
            recs.append(dict(layout="drift", dims=[r["n"]], shape=[int(np.shape(o.value)[0])] if o.ok else [], status=o.err or "ok", msg=o.msg, ref=base[which] + c, mod=-1,
                             meth="", extrap=False, cut=-1, pix=r["pt"], tix=r["ti"], pts=[[0, 0]] * r["n"], tol=1, kept=True, fillok=True,
                             v=[bool(np.isfinite(v)) for v in o.value[:, c]] if o.ok else [], val=[q(v, S / 10) for v in o.value[:, c]] if o.ok else [],
                             key=f"predict|{which}|{c}|{r['n']}|cut{r['cut']}"))


def outers(ctx, pyTMD, P, cases, refs, recs):
    """latitudes by instants of the equilibrium tide"""
    lats = [p[1] for p in BP]
    TS = [D.timescale_at(i) for i in range(4)]
    T = np.array([float(t.tide[0] + t.tt_ut1[0]) for t in TS])
    refs.append([[dict(v=True, val=q(np.ravel(P.equilibrium_tide(T[k:k + 1], np.array([a])))[0], S)) for k in range(4)] for a in lats])
    for r in cases:
        if r["np"] == r["nt"]:
            continue
        o = call(P.equilibrium_tide, T[:r["nt"]] if r["nt"] > 1 else float(T[0]), np.array(lats[:r["np"]]) if r["np"] > 1 else lats[0])
        a = np.reshape(o.value, (r["np"], r["nt"])) if o.ok and np.size(o.value) == r["np"] * r["nt"] else np.zeros((0, 0))
        recs.append(dict(layout="time series", dims=[r["np"], r["nt"]], shape=list(a.shape), status=o.err or "ok", msg=o.msg, ref=len(refs) - 1, mod=-1, meth="",
                         extrap=False, cut=-1, pix=list(range(1, r["np"] + 1)), tix=list(range(1, r["nt"] + 1)), pts=[[0, 0]] * r["np"], tol=1, kept=True, fillok=True,
                         v=[True] * a.size, val=[q(v, S) for v in a.ravel()], key=f"equilibrium_tide|{r['np']}x{r['nt']}"))


def wobble(ts):
    import timescale.eop
    import timescale.time
    tt = ts.tide + 2448622.5 + ts.tt_ut1
    Y, M_, Dd, h, m, s = timescale.time.convert_julian(tt, format="tuple")
    y = timescale.time.convert_calendar_decimal(Y, M_, day=Dd, hour=h, minute=m, second=s)
    mpx, mpy, fl = timescale.eop.iers_mean_pole(y, convention="2018")
    px, py = timescale.eop.iers_polar_motion(tt - 2400000.5, k=3, s=0)
    return q(px[0] - mpx[0], 1e4), q(-(py[0] - mpy[0]), 1e4)


def algebra(ctx, rng, pyTMD, P, cases, recs):
    TS = {i: D.timescale_at([0, 3, 7][i - 1]) for i in (1, 2, 3)}
    W = {i: wobble(t) for i, t in TS.items()}
    SX = {i: np.reshape(np.c_[pyTMD.astro.solar_ecef(t.MJD)], (1, 3)) for i, t in TS.items()}
    LX = {i: np.reshape(np.c_[pyTMD.astro.lunar_ecef(t.MJD)], (1, 3)) for i, t in TS.items()}
    a0 = 6378136.6
    def sph(lat, lon, a=a0):
        lat, lon = np.radians(lat), np.radians(lon)
        return np.array([[a * np.cos(lat) * np.cos(lon), a * np.cos(lat) * np.sin(lon), a * np.sin(lat)]])
    for c in cases:
        k = c["kind"]; ts = TS[c["inst"]]; t = ts.tide + ts.tt_ut1
        r = dict(c, status="ok", key="|".join([k] + [f"{a}={c[a]}" for a in sorted(c) if a != "kind"]))
        def run():
            if k == "lpe":
                kw = {} if c["cons"] == 15 else dict(constituents=[CINDEX[j] for j in range(15) if (j + c["cons"]) % 3 and j != c["cons"]])
                names = kw.get("constituents", CINDEX)
                if c["cons"] == 14:
                    kw = dict(constituents=names[0]); names = [names[0]]
                if c["cons"] == 13:
                    kw = dict(constituents=[n.upper() for n in names])
                g = lambda lat, **a: q(np.ravel(P.equilibrium_tide(t, np.array([float(lat)]), **a))[0], S)
                r.update(v=g(c["lat"], **kw), eq=g(0, **kw), parts=[g(c["lat"], constituents=[n]) for n in names],
                         eq2=q(np.ravel(P.equilibrium_tide(np.concatenate([t, t + 3.3]), np.zeros(2), **kw))[0], S))
            elif k == "lpt":
                h, el = [(6207, 836), (6207, 0), (5000, 1000)][c["love"]]
                mx, my = W[c["inst"]]
                X = sph(90 - 15 * c["kc"], 15 * c["kl"])
                d = P.load_pole_tide(ts.tide, X, deltat=ts.tt_ut1, h2=h / 1e4, l2=el / 1e4, omega=7.2921151467e-5, gamma_0=9.80665)
                v = comp(d, 90 - 15 * c["kc"], 15 * c["kl"])
                r.update(h=h, el=el, mx=mx, my=my, r=q(v[0], 1e6), s=q(v[1], 1e6), e=q(v[2], 1e6))
            elif k == "opt":
                mx, my = W[c["inst"]]
                U = np.zeros((1, 3), complex); U[0, c["comp"] - 1] = c["u"][0] + 1j * c["u"][1]
                d = np.ravel(P.ocean_pole_tide(ts.tide, sph(20, 30), U, deltat=ts.tt_ut1, gamma_0=9.7803278, a_axis=6378136.6, rho_w=1025.0))
                r.update(mx=mx, my=my, v=q(d[c["comp"] - 1], 1e6), others=[q(x, 1e6) for i, x in enumerate(d) if i != c["comp"] - 1])
            elif k == "perm":
                X = sph(c["lat"], 15 * c["kl"])
                f = [P.solid_earth_tide(t, X, SX[c["inst"]], LX[c["inst"]], tide_system=s) for s in ("tide_free", "mean_tide", "MEAN_TIDE")]
                v = comp(f[1] - f[0], c["lat"], 15 * c["kl"])
                r.update(r=q(v[0], 1e7), n=-q(v[1], 1e7), e=q(v[2], 1e7), same=bool(np.array_equal(f[1], f[2])))
            elif k == "set":
                ls, lm, lp = 30 * c["ks"], 30 * c["km"], 30 * c["kp"]
                X = sph(0, lp); s_, m_ = sph(0, ls, 1.495978707e11), sph(0, lm, 3.84399e8)
                d = P.solid_earth_tide(t, X, s_, m_, a_axis=a0)
                v = comp(d, 0, lp)
                fs = 332946.0482 * a0 * (a0 / 1.495978707e11)**3; fm = 0.0123000371 * a0 * (a0 / 3.84399e8)**3
                r.update(fs=q(fs, 1e5), fm=q(fm, 1e5), r=q(v[0], 1e5), e=q(v[2], 1e5), n=-q(v[1], 1e5), ks=(c["ks"] - c["kp"]) % 12, km=(c["km"] - c["kp"]) % 12)
        o = call(run)
        if not o.ok:
            r.update(status=o.err, msg=o.msg)
        recs.append(r)


def comp(d, lat, lon):
    """radial, south, east of a displacement at given spherical coordinates"""
    d = np.ravel(d); la, lo = np.radians(lat), np.radians(lon)
    r = np.array([np.cos(la) * np.cos(lo), np.cos(la) * np.sin(lo), np.sin(la)])
    s = np.array([np.sin(la) * np.cos(lo), np.sin(la) * np.sin(lo), -np.cos(la)])
    e = np.array([-np.sin(lo), np.cos(lo), 0.0])
    return float(d @ r), float(d @ s), float(d @ e)


def maps(ctx, rng, ctl, recs):
    """coefficients of the ocean pole tide between the nodes of its map"""
    n = 1500 if ctx.thorough else 250
    for meth in ("spline", "linear", "bilinear", "nearest"):
        i = np.concatenate([rng.integers(-1, 721, size=n), [719, 719, -1, 0, 359, 360], np.repeat([358, 359, 360, 719], 10)])      # western node of the cell (index from 0.25 E)
        j = np.concatenate([rng.integers(0, 359, size=n), [0, 358, 100, 100, 200, 200], rng.integers(0, 359, size=40)])
        fx, fy = rng.integers(0, 5, size=len(i)), rng.integers(0, 5, size=len(i))
        if meth == "nearest":
            fx[fx == 2] = 1; fy[fy == 2] = 3
        lon = 0.25 + 0.5 * i + 0.125 * fx; lat = -89.75 + 0.5 * j + 0.125 * fy
        lon = np.where(rng.random(len(lon)) < 0.5, np.where(lon > 180, lon - 360, lon), lon)
        # in one call, or one point by one
        if rng.random() < 0.5:
            o = call(ctl.I.extract_coefficients, lon, lat, method=meth)
        else:
            c = [slice(0, 1), slice(1, len(lon))]
            o = call(lambda: [np.concatenate(v) for v in zip(*[ctl.I.extract_coefficients(lon[s], lat[s], method=meth) for s in c])])
        for k in range(len(i)):
            for c in range(6):
                if k % 6 != c:
                    continue
                cn = [int(node((i[k] + a) % 720, j[k] + b, c)) for b in (0, 1) for a in (0, 1)]
                v = (o.value[c // 2][k].real if c % 2 == 0 else o.value[c // 2][k].imag) if o.ok else 0
                recs.append(dict(kind="map", meth=meth, fx=int(fx[k]), fy=int(fy[k]), c=cn, v=q(v, 16e3), status=o.err or "ok", msg=o.msg,
                                 key=f"map|{meth}|{float(lon[k])}|{float(lat[k])}|{c}"))


def main(ctx):
    import pyTMD, pyTMD.compute, pyTMD.astro, pyTMD.predict as P
    rng = ctx.rng
    ctl = Ctl(ctx)
    # a stand-in for the kernel the package downloads
    ctl.kernel = ctx.scratch / "kernel.bsp"
    kernel(ctl.kernel, {(0, 10): (3e5, -8e5, -3e5), (0, 3): (-1.2e8, 7.4e7, 3.1e7), (3, 399): (2100.0, -3900.0, -1300.0), (3, 301): (-171000.0, 309000.0, 152000.0)})
    if hasattr(pyTMD.astro, "_default_kernel"):
        pyTMD.astro._default_kernel = ctl.kernel
    cases = ctx.model("EarthMC", CFG % ("sound", "TRUE", "TRUE" if ctx.thorough else "FALSE"), name="batches and lattices of the algebra")
    ctx.refute("EarthMC", CFG % ("anchored", "FALSE", "FALSE"), name="a piece answered with its first instant")
    by = {}
    for c in cases:
        by.setdefault(c["kind"], []).append(c)
    def some(k, n):
        v = by[k]
        return v if len(v) <= n else [v[i] for i in sorted(rng.choice(len(v), size=n, replace=False))]
    big = 10**9 if ctx.thorough else 0
    refs, recs, alg = [], [], []
    batches(ctx, rng, pyTMD, P, some("batch", big or 400), refs, recs)
    outers(ctx, pyTMD, P, by["outer"], refs, recs)
    layouts(ctx, rng, pyTMD, P, ctl, refs, recs)
    for k in ("lpe", "lpt", "opt", "perm", "set"):
        algebra(ctx, rng, pyTMD, P, some(k, big or 240), alg)
    maps(ctx, rng, ctl, alg)
    can = []
    good = [r for r in recs if r["status"] == "ok" and any(r["v"])]
    for k in range(6):
        r = json.loads(json.dumps(jsonable(good[int(rng.integers(len(good)))])))
        i = [a for a, v in enumerate(r["v"]) if v][0]
        if k % 3 == 0:
            r["val"][i] += 5000
        elif k % 3 == 1:
            r["v"][i] = False
        else:
            r["shape"] = r["shape"] + [1]
        can.append(r)
    f1, f2 = ctx.scratch / "models.json", ctx.scratch / "refs.json"
    f1.write_text("[]"); f2.write_text(json.dumps(refs))
    ctx.validate("DriverTrace", recs, canaries=can, env={"MODELS": f1, "REFS": f2}, name="each location and instant alone")
    can = []
    for k, fld in (("lpe", "v"), ("lpt", "r"), ("lpt", "s"), ("lpt", "e"), ("opt", "v"), ("perm", "r"), ("perm", "n"), ("perm", "e"), ("set", "r"), ("map", "v")):
        r = [a for a in alg if a["kind"] == k and a["status"] == "ok"]
        if r:
            can.append(dict(r[len(r) // 2])); can[-1][fld] += 3000
    ctx.validate("EarthTrace", alg, canaries=can, name="algebra on the lattices")
    ctx.assumptions += ["polar motion and mean pole are those of the timescale package (the harness reads them from it)",
                        "the map of the ocean pole tide is synthetic (the published file is not in the repository); after three readings the file is served from memory"]
