"""Synthetic tide models: one abstract dataset (integers on a lattice), written by
our own encoders in every file format the package reads.

Abstract dataset (class DS), all indices 0-based, row 0 southernmost:
  W, H        nodes; x0, y0 first node; dx, dy spacing (degrees or km)
  glob        periodic in x (W*dx = 360); dup: files repeat the first column at the end
  cons        constituent names;  proj: projection of the model
  z[c]        (re, im) integer elevations at z nodes     (H, W, 2)
  u[c], v[c]  integer transports at u and v nodes        (H, W, 2)
  wet         at z nodes (H, W);  dep: integer (even) depth at z nodes
  cwet[c]     additional per-constituent mask (formats with one mask per file)
u nodes lie half a cell west, v nodes half a cell south of the z node with the same
index; they are wet where both neighbouring z nodes are wet (the border of a regional
model counts as its own neighbour), with the mean depth of the two.
"""
import gzip, json, pathlib, struct, io, types, zlib
import numpy as np

FORMATS_Z = ["OTIS", "OTIS-list", "TMD3", "ATLAS-netcdf", "GOT-ascii", "GOT-netcdf", "FES-ascii:FES2004", "FES-ascii:FES1999",
             "FES-netcdf:FES2012", "FES-netcdf:FES2014", "FES-netcdf:FES2022", "FES-netcdf:EOT20", "FES-netcdf:HAMTIDE11"]
FORMATS_UV = ["OTIS", "OTIS-list", "TMD3", "ATLAS-netcdf", "FES-netcdf:FES2012", "FES-netcdf:FES2014", "FES-netcdf:FES2022", "FES-netcdf:HAMTIDE11"]
GZ = ("ATLAS-netcdf", "GOT-ascii", "GOT-netcdf", "FES-ascii:FES2004", "FES-ascii:FES1999", "FES-netcdf:FES2012",
      "FES-netcdf:FES2014", "FES-netcdf:FES2022", "FES-netcdf:EOT20", "FES-netcdf:HAMTIDE11")
PERFILE = ("GOT-ascii", "GOT-netcdf") + tuple(f for f in FORMATS_Z if f.startswith("FES"))


class DS:
    def __init__(self, rng, W=12, H=5, x0=15.0, y0=-60.0, dx=30.0, dy=30.0, glob=True, dup=False, cons=("m2", "s2"),
                 proj="EPSG:4326", wet=None, cwet=False, amp=200, depths=(100, 200, 400), landp=0.25, constdepth=None):
        self.W, self.H, self.x0, self.y0, self.dx, self.dy = W, H, x0, y0, dx, dy
        self.glob, self.dup, self.cons, self.proj = glob, dup, list(cons), proj
        nc = len(cons)
        def val():
            a = rng.integers(1, amp, size=(nc, H, W, 2)) * rng.choice([-1, 1], size=(nc, H, W, 2))
            return a.astype(int)
        self.z, self.u, self.v = val(), val(), val()
        self.wet = (rng.random((H, W)) >= landp) if wet is None else np.array(wet, dtype=bool)
        self.dep = rng.choice(depths, size=(H, W)).astype(int) if constdepth is None else np.full((H, W), int(constdepth))
        self.flex = None
        self.cwet = np.ones((nc, H, W), dtype=bool)
        if cwet:
            self.cwet = rng.random((nc, H, W)) >= 0.12

    # -- staggered grids ------------------------------------------------------
    def stag(self, t):
        """wetness and twice the depth at the nodes of variable t"""
        w, d = self.wet, self.dep
        t = t.lower()
        if t == "z":
            return w, 2 * d
        if t == "u":
            if self.glob:
                wn, dn = np.roll(w, 1, axis=1), np.roll(d, 1, axis=1)
            else:
                wn, dn = np.c_[w[:, :1], w[:, :-1]], np.c_[d[:, :1], d[:, :-1]]
        else:
            wn, dn = np.r_[w[:1], w[:-1]], np.r_[d[:1], d[:-1]]
        ww = w & wn
        return ww, np.where(ww, d + dn, 0)

    def origin(self, t):
        t = t.lower()
        return (self.x0 - (self.dx / 2 if t == "u" else 0), self.y0 - (self.dy / 2 if t == "v" else 0))

    def values(self, t):
        return dict(z=self.z, u=self.u, v=self.v)[t.lower()]

    def lons(self, t="z", dup=None):
        n = self.W + (1 if (self.dup if dup is None else dup) else 0)
        return self.origin(t)[0] + self.dx * np.arange(n)

    def lats(self, t="z"):
        return self.origin(t)[1] + self.dy * np.arange(self.H)

    def closed(self, a):
        """append the repeated column"""
        return np.concatenate((a, a[..., :1]), axis=-1) if self.dup else a

    def describe(self, t, velocity=False):
        """the model as the specification sees it"""
        w, d2 = self.stag(t)
        vals = self.values(t)
        return dict(W=self.W, H=self.H, glob=bool(self.glob), cons=self.cons,
                    wet=[[bool(b) for b in r] for r in w], dep2=[[int(b) for b in r] for r in d2],
                    cwet=[[[bool(b) for b in r] for r in c] for c in self.cwet],
                    re=[[[int(b) for b in r] for r in c] for c in vals[..., 0]],
                    im=[[[int(b) for b in r] for r in c] for c in vals[..., 1]], vel=bool(velocity))


def _rec(fid, *arrays):
    b = b"".join(a if isinstance(a, bytes) else np.ascontiguousarray(a).tobytes() for a in arrays)
    fid.write(struct.pack(">i", len(b)) + b + struct.pack(">i", len(b)))


def otis_grid(path, ds, extra_nob=0):
    with open(path, "wb") as f:
        lim = [ds.y0 - ds.dy / 2, ds.y0 + ds.dy * (ds.H - 0.5), ds.x0 - ds.dx / 2, ds.x0 + ds.dx * (ds.W - 0.5)]
        _rec(f, np.array([ds.W, ds.H], ">i4"), np.array(lim, ">f4"), np.array([12.0], ">f4"), np.array([extra_nob], ">i4"))
        if extra_nob:
            _rec(f, np.arange(2 * extra_nob).astype(">i4"))
        else:
            _rec(f, np.array([0], ">i4"))
        hz = np.where(ds.wet, ds.dep, 0)
        _rec(f, hz.astype(">f4"))
        _rec(f, ds.wet.astype(">i4"))


def otis_head(f, ds, cons):
    lim = [ds.y0 - ds.dy / 2, ds.y0 + ds.dy * (ds.H - 0.5), ds.x0 - ds.dx / 2, ds.x0 + ds.dx * (ds.W - 0.5)]
    _rec(f, np.array([ds.W, ds.H, len(cons)], ">i4"), np.array(lim, ">f4"), b"".join(c.ljust(4).encode() for c in cons))


def otis_elev(path, ds, idx):
    with open(path, "wb") as f:
        otis_head(f, ds, [ds.cons[i] for i in idx])
        for i in idx:
            h = np.where(ds.wet[..., None], ds.z[i], 0)
            _rec(f, h.astype(">f4"))


def otis_uv(path, ds, idx):
    with open(path, "wb") as f:
        otis_head(f, ds, [ds.cons[i] for i in idx])
        wu, wv = ds.stag("u")[0], ds.stag("v")[0]
        for i in idx:
            u = np.where(wu[..., None], ds.u[i], 0); v = np.where(wv[..., None], ds.v[i], 0)
            _rec(f, np.concatenate((u, v), axis=-1).astype(">f4"))


def tmd3(path, ds, idx):
    import netCDF4
    n = netCDF4.Dataset(path, "w")
    n.createDimension("x", ds.W); n.createDimension("y", ds.H); n.createDimension("constituents", len(idx))
    def var(name, dt, dims, a):
        v = n.createVariable(name, dt, dims); v[:] = a; return v
    var("x", "f8", ("x",), ds.lons(dup=False)); var("y", "f8", ("y",), ds.lats()[::-1])
    var("wct", "f4", ("y", "x"), np.where(ds.wet, ds.dep, 0)[::-1])
    var("mask", "i1", ("y", "x"), ds.wet.astype("i1")[::-1])
    var("flexure", "f4", ("y", "x"), (np.full((ds.H, ds.W), 100.0) if ds.flex is None else ds.flex)[::-1])
    c = var("constituents", "i1", ("constituents",), np.arange(len(idx)))
    c.setncattr("constituent_order", " ".join(ds.cons[i] for i in idx))
    for nm, t in (("h", "z"), ("U", "u"), ("V", "v")):
        w = ds.stag(t)[0]; a = np.where(w[..., None], ds.values(t)[list(idx)], 0)
        var(nm + "Re", "f4", ("constituents", "y", "x"), a[:, ::-1, :, 0])
        var(nm + "Im", "f4", ("constituents", "y", "x"), -a[:, ::-1, :, 1])
    n.close()


def _gz(path, gz):
    if gz:
        b = open(path, "rb").read()
        out = str(path) + ".gz"
        with gzip.open(out, "wb") as f:
            f.write(b)
        pathlib.Path(path).unlink()
        return pathlib.Path(out)
    return pathlib.Path(path)


def atlas_grid(path, ds):
    import netCDF4
    n = netCDF4.Dataset(path, "w")
    nx = ds.W + int(ds.dup)
    n.createDimension("nx", nx); n.createDimension("ny", ds.H)
    for t in "zuv":
        w, d2 = ds.stag(t)
        for nm, a, dims in ((f"lon_{t}", ds.lons(t), ("nx",)), (f"lat_{t}", ds.lats(t), ("ny",)),
                            (f"h{t}", ds.closed(np.where(w, d2 / 2.0, 0)).T, ("nx", "ny"))):
            v = n.createVariable(nm, "f8", dims); v[:] = a
    n.close()


def atlas_con(path, ds, i, t, unit):
    import netCDF4
    n = netCDF4.Dataset(path, "w")
    nx = ds.W + int(ds.dup)
    n.createDimension("nx", nx); n.createDimension("ny", ds.H); n.createDimension("nct", 4)
    name = ds.cons[i]
    v = n.createVariable("con", "S1", ("nct",)); v[:] = np.array([ch.encode() for ch in name.ljust(4)], dtype="S1")
    for tt in ("z",) if t == "z" else ("u", "v"):
        w = ds.stag(tt)[0]; a = np.where(w[..., None], ds.values(tt)[i], 0) * unit
        nm = {"z": "h"}.get(tt, tt)
        for k, s in enumerate(("Re", "Im")):
            v = n.createVariable(nm + s, "f8", ("nx", "ny")); v[:] = ds.closed(a[..., k]).T
    n.close()


def _ampph(ds, i, t, unit, velocity=False):
    w, d2 = ds.stag(t)
    a = ds.values(t)[i].astype(float)
    if velocity:
        a = 100.0 * a / np.where(w, d2 / 2.0, 1.0)[..., None]
    h = (a[..., 0] + 1j * a[..., 1]) * unit
    ok = w & ds.cwet[i]
    amp, ph = np.abs(h), np.degrees(np.arctan2(-h.imag, h.real)) % 360.0
    return ds.closed(np.where(ok, amp, np.nan)), ds.closed(np.where(ok, ph, np.nan))


def got_ascii(path, ds, i, unit, fill=999.0):
    amp, ph = [np.where(np.isnan(a), fill, a) for a in _ampph(ds, i, "z", unit)]
    ny, nx = amp.shape
    lon, lat = ds.lons(), ds.lats()
    def head(what):
        return [f"{ds.cons[i].upper()} ocean tide {what} for GOT synthetic", "  test", f"{ny} {nx}", f"{lat[0]:.6f} {lat[-1]:.6f}",
                f"{lon[0]:.6f} {lon[-1]:.6f}", f"{fill:.2f} {fill:.2f}", "(11f15.9)"]
    def body(a):
        out = []
        for r in a:
            for k in range(0, nx, 11):
                out.append(" ".join(f"{x:.9f}" for x in r[k:k + 11]))
        return out
    pathlib.Path(path).write_text("\n".join(head("amplitude (cm)") + body(amp) + head("phase lag") + body(ph)) + "\n")


def got_netcdf(path, ds, i, unit):
    import netCDF4
    amp, ph = _ampph(ds, i, "z", unit)
    n = netCDF4.Dataset(path, "w")
    n.createDimension("longitude", amp.shape[1]); n.createDimension("latitude", amp.shape[0])
    v = n.createVariable("longitude", "f8", ("longitude",)); v[:] = ds.lons()
    v = n.createVariable("latitude", "f8", ("latitude",)); v[:] = ds.lats()
    for nm, a in (("amplitude", amp), ("phase", ph)):
        v = n.createVariable(nm, "f8", ("latitude", "longitude"), fill_value=999.0); v[:] = np.where(np.isnan(a), 999.0, a)
    n.Constituent = ds.cons[i].upper()
    n.close()


def fes_ascii(path, ds, i, unit, fill=9999.0):
    amp, ph = [np.where(np.isnan(a), fill, a) for a in _ampph(ds, i, "z", unit)]
    ny, nx = amp.shape
    lon, lat = ds.lons(), ds.lats()
    out = [f"{lon[0]:.4f} {lon[-1]:.4f}", f"{lat[0]:.4f} {lat[-1]:.4f}", f"{ds.dx:.4f} {ds.dy:.4f}", f"{nx} {ny}", f"{fill:.1f} {fill:.1f}"]
    for r in range(ny):
        for k in range(0, nx, 30):
            out.append(" ".join(f"{x:.9f}" for x in amp[r, k:k + 30]))
            out.append(" ".join(f"{x:.9f}" for x in ph[r, k:k + 30]))
    pathlib.Path(path).write_text("\n".join(out) + "\n")


def fes_netcdf(path, ds, i, t, version, unit, append=False):
    import netCDF4
    amp, ph = _ampph(ds, i, t, unit, velocity=(t != "z"))
    n = netCDF4.Dataset(path, "a" if append else "w")
    if version == "FES2012":
        ln, lt = "lon", "lat"; ka, kp = dict(z=("Ha", "Hg"), u=("Ua", "Ug"), v=("Va", "Vg"))[t]
    elif version == "HAMTIDE11":
        ln, lt = "LON", "LAT"; ka, kp = dict(z=("AMPL", "PHAS"), u=("UAMP", "UPHA"), v=("VAMP", "VPHA"))[t]
    else:
        ln, lt = "lon", "lat"; ka, kp = dict(z=("amplitude", "phase"), u=("Ua", "Ug"), v=("Va", "Vg"))[t]
    if not append:
        n.createDimension(ln, amp.shape[1]); n.createDimension(lt, amp.shape[0])
        v = n.createVariable(ln, "f8", (ln,)); v[:] = ds.lons(t)
        v = n.createVariable(lt, "f8", (lt,)); v[:] = ds.lats(t)
    for nm, a in ((ka, amp), (kp, ph)):
        v = n.createVariable(nm, "f8", (lt, ln), fill_value=1e10); v[:] = np.where(np.isnan(a), 1e10, a)
    n.close()


def write(ds, d, fmt, kind="z", gz=False, order=None, unit=1.0, stem="mod", fnames=None, variable=None):
    """write ds in format fmt below directory d; returns a definition (dict) of the model.
    kind 'z' or 'uv'; order: order of the constituents (indices) in the files;
    unit: file units per abstract unit (the definition gets scale = 1/unit)"""
    d = pathlib.Path(d); d.mkdir(parents=True, exist_ok=True)
    order = list(range(len(ds.cons))) if order is None else list(order)
    base, _, version = fmt.partition(":")
    definition = dict(name=stem, type="z" if kind == "z" else ["u", "v"], format={"OTIS-list": "OTIS"}.get(base, base))
    if kind == "z":
        definition["variable"] = variable or "tide_ocean"
    else:
        definition["variable"] = variable or "tide_ocean"
    if base in ("OTIS", "OTIS-list"):
        g = d / f"grid_{stem}"
        otis_grid(g, ds)
        w = otis_elev if kind == "z" else otis_uv
        if base == "OTIS":
            f = d / f"{'h' if kind == 'z' else 'u'}_{stem}"
            w(f, ds, order)
            files = f
        else:
            files = []
            for i in order:
                f = d / f"{'h' if kind == 'z' else 'u'}_{ds.cons[i]}_{stem}"
                w(f, ds, [i]); files.append(f)
        definition.update(grid_file=str(g), projection=PROJ[ds.proj])
        if isinstance(files, list):
            definition["model_file"] = [str(f) for f in files] if kind == "z" else dict(u=[str(f) for f in files])
        else:
            definition["model_file"] = str(files) if kind == "z" else dict(u=str(files))
    elif base == "TMD3":
        f = d / f"{stem}.nc"
        tmd3(f, ds, order)
        definition.update(grid_file=str(f), projection=PROJ[ds.proj], model_file=str(f) if kind == "z" else dict(u=str(f)))
    elif base == "ATLAS-netcdf":
        g = d / f"grid_{stem}.nc"; atlas_grid(g, ds); g = _gz(g, gz)
        files = []
        for i in order:
            f = d / f"{'h' if kind == 'z' else 'u'}_{ds.cons[i]}_{stem}.nc"
            atlas_con(f, ds, i, kind[0] if kind == "z" else "uv", unit); files.append(str(_gz(f, gz)))
        definition.update(grid_file=str(g), scale=1.0 / unit, model_file=files if kind == "z" else dict(u=list(files), v=list(files)))
    elif base in ("GOT-ascii", "GOT-netcdf"):
        files = []
        for i in order:
            f = d / (f"{ds.cons[i]}.d" if base == "GOT-ascii" else f"{ds.cons[i]}.nc")
            (got_ascii if base == "GOT-ascii" else got_netcdf)(f, ds, i, unit); files.append(str(_gz(f, gz)))
        definition.update(scale=1.0 / unit, model_file=files)
    else:
        def one(t):
            files = []
            for i in order:
                nm = (fnames or {}).get(ds.cons[i], ds.cons[i])
                if base == "FES-ascii":
                    f = d / f"{nm}_{version.lower()}.asc"; fes_ascii(f, ds, i, unit)
                else:
                    sub = d / t; sub.mkdir(exist_ok=True)
                    f = sub / f"{nm}.nc"; fes_netcdf(f, ds, i, t, version, unit)
                files.append(str(_gz(f, gz)))
            return files
        definition.update(scale=1.0 / unit, version=version, model_file=one("z") if kind == "z" else dict(u=one("u"), v=one("v")))
    return definition


def globbed(definition, d, aslist=False):
    """the same definition with a directory and patterns (or names) relative to it"""
    import os
    out = dict(definition, directory=str(d))
    rel = lambda f: os.path.relpath(f, d)
    def pat(files):
        if isinstance(files, str):
            return rel(files)
        if aslist:
            return [rel(f) for f in files]
        names = [rel(f) for f in files]
        a = os.path.commonprefix(names); b = os.path.commonprefix([n[::-1] for n in names])[::-1]
        return a + "*" + b if len(names) > 1 else names[0]
    mf = definition["model_file"]
    out["model_file"] = {k: pat(v) for k, v in mf.items()} if isinstance(mf, dict) else pat(mf)
    if "grid_file" in definition:
        out["grid_file"] = rel(definition["grid_file"])
    return out


def load(definition, gz=False, path=None):
    """the model object, through a definition file"""
    import pyTMD.io
    definition = dict(definition)
    directory = definition.pop("directory", None)
    m = pyTMD.io.model(directory, compressed=gz) if directory else pyTMD.io.model(compressed=gz)
    b = io.BytesIO(json.dumps(definition).encode())
    if path is not None:
        pathlib.Path(path).write_bytes(b.getvalue())
        return m.from_file(path)
    return m.from_file(b)


# -- asking the real readers --------------------------------------------------
def _stere(lat0, latts, lon0, units="km"):
    return dict(datum="WGS84", lat_0=lat0, lat_ts=latts, lon_0=lon0, proj="stere", type="crs", units=units, x_0=0, y_0=0)


PROJ = {"EPSG:4326": "EPSG:4326", "CATS2008": _stere(-90, -71, -70), "PSNorth": _stere(90, 70, -45),
        "AEDNorth": dict(R=6399938.5716113, lat_0=90, lon_0=270, proj="aeqd", type="crs", units="km", x_0=0, y_0=0)}


def fast_crs():
    """remember coordinate reference systems (immutable) that pyproj builds slowly"""
    import pyproj
    if getattr(pyproj.CRS, "_vp_cached", False):
        return
    cache = {}
    for nm in ("from_user_input", "from_string", "from_epsg"):
        orig = getattr(pyproj.CRS, nm)
        def wrapped(value, *a, _o=orig, _n=nm, **k):
            try:
                key = (_n, repr(value), repr(a), repr(k))
                if isinstance(value, (str, int, dict)):
                    if key not in cache:
                        cache[key] = _o(value, *a, **k)
                    return cache[key]
            except TypeError:
                pass
            return _o(value, *a, **k)
        setattr(pyproj.CRS, nm, staticmethod(wrapped))
    pyproj.CRS._vp_cached = True


def lonlat(ds, t, pts, shift=0):
    """geographic coordinates of lattice points (quarter cells)"""
    ox, oy = ds.origin(t)
    x = ox + ds.dx / 4 * np.array([p[0] for p in pts], dtype=float)
    y = oy + ds.dy / 4 * np.array([p[1] for p in pts], dtype=float)
    if ds.proj != "EPSG:4326":
        import pyproj
        tr = pyproj.Transformer.from_crs(pyproj.CRS.from_user_input(PROJ[ds.proj]), pyproj.CRS.from_epsg(4326), always_xy=True)
        x, y = tr.transform(x, y)
        x = np.array(x, dtype=float); y = np.array(y, dtype=float)
    return x + 360.0 * np.broadcast_to(np.asarray(shift, dtype=float), x.shape), y


def spec_model(ds, t, velocity=None):
    m = ds.describe(t, velocity=(t in ("u", "v")) if velocity is None else velocity)
    geo = ds.proj == "EPSG:4326"
    m["per"] = int(round(360 / ds.dx * 4)) if geo else 0
    if geo and all(abs(v / 10 - round(v / 10)) < 1e-9 for v in (ds.dx, ds.dy)):
        ox, oy = ds.origin(t)
        m.update(lon=int(round(ox / 2.5)), lat=int(round(oy / 2.5)), qd=int(round(ds.dx / 10)), qy=int(round(ds.dy / 10)))
    else:
        assert geo or ds.dy % ds.dx == 0
        m.update(lon=0, lat=0, qd=1, qy=1 if geo else int(ds.dy / ds.dx))
    return m


def cut_units(ds, cutoff_km):
    """cutoff in the units of the distances of the specification"""
    if not np.isfinite(cutoff_km):
        return -1
    if ds.proj == "EPSG:4326":
        return int(round(cutoff_km * 10000 / 6371.0))
    return int(round(cutoff_km / (ds.dx / 4)))


def observe(amp, ph, scale, velocity):
    """constants -> per point lists of validity and lattice values, and a leak flag"""
    from vlib import q
    a = np.ma.array(amp); p = np.ma.array(ph)
    ma, mp = np.ma.getmaskarray(a), np.ma.getmaskarray(p)
    out = []
    leak = not np.array_equal(ma, mp)
    unit = 100.0 if velocity else 10000.0
    for k in range(a.shape[0]):
        v, re, im = [], [], []
        for c in range(a.shape[1]):
            ok = not (ma[k, c] or mp[k, c])
            A, P = float(a.data[k, c]), float(p.data[k, c])
            v.append(bool(ok))
            if ok:
                h = A / scale * np.exp(-1j * np.radians(P)) if np.isfinite(A) and np.isfinite(P) else complex(np.nan)
                re.append(q(h.real, unit)); im.append(q(h.imag, unit))
                if not (-1e-9 <= P < 360 + 1e-9):
                    leak = True
            else:
                re.append(0); im.append(0)
        out.append((v, re, im))
    return out, bool(leak)


def ask(model, ds, mod, t, pts, path="extract", method="spline", shift=0, crop=False, bounds=None, buffer=None,
        extrapolate=False, cutoff=None, key="", names=None, definition=None, depth=False, cons=None, hold=None, deftype=False, withnode=False, **kw):
    """one call on a model object; t in z,u,v,U,V; pts lattice points.
    returns the record of the event"""
    from vlib import call, q
    lon, lat = lonlat(ds, t, pts, shift)
    lon0, lat0 = lon.copy(), lat.copy()
    args = dict(type=t, method=method, extrapolate=extrapolate)
    if cutoff is not None:
        args["cutoff"] = cutoff
    c = dict(crop=crop)
    if bounds is not None:
        c["bounds"] = bounds
    if buffer is not None:
        c["buffer"] = buffer
    vel = t in ("u", "v")
    rec = dict(kind="ask", mod=mod, meth=method, extrap=bool(extrapolate), cut=cut_units(ds, cutoff) if cutoff is not None else cut_units(ds, 10.0),
               key=key, status="ok", names=[], kept=True, leak=False, pts=[])
    # (by method, or by function of the package)
    via, objects = model, model
    if zlib.crc32(repr((key, path, len(pts))).encode()) % 3 == 0:
        import pyTMD.io
        via = types.SimpleNamespace(extract_constants=lambda *a, **k: pyTMD.io.extract_constants(*a, objects, **k),
                                    read_constants=lambda **k: pyTMD.io.read_constants(objects, **k),
                                    interpolate_constants=lambda *a, **k: pyTMD.io.interpolate_constants(*a, objects, **k))
    def run():
        if path == "extract":
            return via.extract_constants(lon, lat, **args, **c, **kw)
        if path == "read":
            cc = via.read_constants(type=t, **c, **kw)
            a, p = via.interpolate_constants(lon, lat, **args)
            return a, p, list(cc.fields)
        if path == "interp":
            if deftype:
                args.pop("type")
            a, p = via.interpolate_constants(lon, lat, **args, **kw)
            return a, p, list(objects._constituents.fields)
        raise KeyError(path)
    o = call(run)
    rec["kept"] = bool(np.array_equal(lon, lon0) and np.array_equal(lat, lat0))
    if not o.ok:
        rec["status"] = o.err; rec["msg"] = o.msg
        return rec
    a, p, names_got = o.value
    node = None
    if hold is not None:
        # the user keeps (and may overwrite) what was given and returned
        hold += [lon, lat, names_got] + ([x for x in (a, p)])
        a, p, names_got = np.ma.array(a, copy=True), np.ma.array(p, copy=True), list(names_got)
    wantnode = kw.get("append_node") or withnode
    if wantnode and len(names_got) and names_got[-1] == "node" and np.shape(a) == (len(pts), len(names_got)):
        node = [(not bool(np.ma.getmaskarray(a)[k, -1]), q(float(np.real(a.data[k, -1] * np.exp(-1j * np.radians(p.data[k, -1])))), 1e7)) for k in range(len(pts))]
        a, p, names_got = a[:, :-1], p[:, :-1], list(names_got)[:-1]
    elif wantnode:
        rec["status"] = "NoNodeTide"; rec["msg"] = str(names_got)
        return rec
    rec["names"] = [str(x) for x in names_got]
    if np.shape(a) != (len(pts), len(names_got)) or np.shape(p) != np.shape(a):
        rec["status"] = "Shape"; rec["msg"] = str(np.shape(a))
        return rec
    obs, rec["leak"] = observe(a, p, 1.0, vel)
    rec["pts"] = [dict(x=int(pt[0]), y=int(pt[1]), v=o_[0], re=o_[1], im=o_[2]) for pt, o_ in zip(pts, obs)]
    if node is not None and t == "z" and ds.proj == "EPSG:4326" and ds.dx % 10 == 0 and ds.dy % 10 == 0:
        for k, pp in enumerate(rec["pts"]):
            if path == "extract" or (pp["y"] % 4 == 0 and all(pp["v"]) and not extrapolate):
                pp["nodev"], pp["node"] = bool(node[k][0]), node[k][1]
    return rec


def database():
    """the model database as distributed"""
    import pyTMD
    return json.loads((pathlib.Path(pyTMD.__file__).resolve().parent / "data" / "database.json").read_text())

