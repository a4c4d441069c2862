"""C11: interpolators"""
import numpy as np
from vlib import *

VALS = [1, 5, 17, 53, 101, 29, 83, 7, 61, 37, 11, 97]
IMAG = [90, 2, 31, 71, 13, 59, 23, 43, 5, 67, 19, 47]
D = 4


def run(method, nx, ny, m, x, y, sx, sy, x0, y0, order, fill, cplx, zre, zim, masked=True):
    """one call; lattice unit sx, sy degrees, origin x0, y0"""
    import pyTMD.interpolate as I
    ilon = x0 + sx * D * np.arange(nx, dtype=float)
    ilat = y0 + sy * D * np.arange(ny, dtype=float)
    z = np.array(zre, dtype=float).reshape(ny, nx)
    dt = float
    if cplx:
        z = z + 1j * np.array(zim, dtype=float).reshape(ny, nx)
        dt = complex
    mm = np.array(m, dtype=bool).reshape(ny, nx)
    if method == "bilinear" and not masked:
        idata = z
    else:
        # land nodes carry a conspicuous value that must never leak
        zz = z.copy()
        zz[mm] = 7777.0
        idata = np.ma.array(zz, mask=mm.copy())
    lon = x0 + sx * np.array(x, dtype=float)
    lat = y0 + sy * np.array(y, dtype=float)
    snap = (np.array(idata, copy=True), np.ma.getmaskarray(idata).copy(), lon.copy(), lat.copy(), ilon.copy(), ilat.copy())
    if method == "bilinear":
        o = call(I.bilinear, ilon, ilat, idata, lon, lat, fill_value=fill, dtype=dt)
    elif method in ("linear", "nearest"):
        o = call(I.regulargrid, ilon, ilat, idata, lon, lat, fill_value=fill, dtype=dt, method=method)
    else:
        o = call(I.spline, ilon, ilat, idata, lon, lat, fill_value=fill, dtype=dt)
    same = (np.array_equal(snap[0], np.array(idata)) and np.array_equal(snap[1], np.ma.getmaskarray(idata))
            and all(np.array_equal(a, b) for a, b in zip(snap[2:], (lon, lat, ilon, ilat))))
    rec = dict(method=method, nx=nx, ny=ny, m=[bool(b) for b in m], x=list(map(int, x)), y=list(map(int, y)),
               zre=list(zre), zim=list(zim if cplx else zre), status="ok" if o.ok else o.err,
               re=[], im=[], valid=[], fillok=[], checkfill=False, unchanged=same, cplx=cplx,
               spacing=[sx, sy, x0, y0], msg=o.msg)
    rec["key"] = f"{method}:{'complex' if cplx else 'real'}:{order}:mask={''.join('1' if b else '0' for b in m)}:{o.err}"
    if o.ok:
        v = np.ma.asanyarray(o.value)
        mk = np.ma.getmaskarray(v)
        d = np.atleast_1d(v.data)
        rec["valid"] = [bool(not a) for a in np.atleast_1d(mk)]
        rec["re"] = [q(a.real, 10000) for a in d]
        rec["im"] = [q(a.imag, 10000) if cplx else q(a.real, 10000) for a in d]
        if method in ("bilinear", "linear", "nearest"):
            rec["checkfill"] = True
            f = complex(fill) if cplx else fill
            rec["fillok"] = [bool(np.isnan(a)) if np.isnan(fill) else bool(a == f) for a in d]
        else:
            rec["fillok"] = [True] * len(d)
    return rec


def main(ctx):
    NX, NY = 3, 3
    cfg = ("SPECIFICATION Spec\nINVARIANTS RouteIsIdeal Convex StrictImpliesIdeal NodeExact Emit\nCHECK_DEADLOCK FALSE\n"
           "CONSTANTS\n D = 4\n NX = %d\n NY = %d\n Vals <- VV\n EmitOn = TRUE\n")
    cfg = cfg.replace(" Vals <- VV\n", "") .replace("CONSTANTS\n", "CONSTANTS\n Vals <- ValsDefault\n")
    cases = ctx.model("InterpMC", cfg % (NX, NY), workers=1 if not ctx.thorough else 1)
    if ctx.thorough:
        cases += ctx.model("InterpMC", cfg % (4, 3), name="InterpMC-4x3")
    recs = []
    rng = ctx.rng
    # the model covers every mask; replay all of them with two methods each
    spacings = [(1.0, 1.0, -8.0, -4.0), (0.25, 0.5, 300.0, 60.0), (1.0, 2.0, -180.0, -90.0), (16.0, 8.0, 2000.0, -1000.0)]
    for n, c in enumerate(cases):
        nx, ny, m = c["nx"], c["ny"], c["m"]
        xs, ys = np.meshgrid(np.arange(-1, (nx - 1) * D + 2), np.arange(-1, (ny - 1) * D + 2))
        x, y = xs.ravel(), ys.ravel()
        methods = ["bilinear", "linear", "nearest", "spline"] if ctx.thorough or n % 8 == 0 else \
            [["bilinear", "linear"], ["bilinear", "nearest"], ["bilinear", "spline"]][n % 3]
        for k, meth in enumerate(methods):
            kind = ["all", "shuffled", "subset"][(n + k) % 3]
            idx = np.arange(len(x))
            if kind == "shuffled":
                idx = rng.permutation(len(x))
            elif kind == "subset":
                idx = rng.choice(len(x), size=12, replace=False)
            sp = spacings[(n // 3 + k) % 4]
            fill = [np.nan, -9999.0][(n + k) % 2]
            zre = list(rng.permutation(VALS[:nx * ny])) if n % 2 else VALS[:nx * ny]
            zim = list(rng.permutation(IMAG[:nx * ny])) if n % 2 else IMAG[:nx * ny]
            recs.append(run(meth, nx, ny, m, x[idx], y[idx], *sp, kind, fill, bool((n + k) % 2), [int(a) for a in zre], [int(a) for a in zim]))
    # unmasked plain arrays and single points
    nx = ny = 3
    none = [False] * 9
    for meth in ("bilinear", "linear", "nearest", "spline"):
        for (px, py) in [(0, 0), (8, 8), (8, 3), (3, 8), (0, 5), (5, 0), (2, 3), (4, 4), (9, 4), (4, -1)]:
            recs.append(run(meth, 3, 3, none, [px], [py], 1.0, 1.0, 10.0, 20.0, "single", -1.0, False, VALS[:9], IMAG[:9], masked=False))
            recs.append(run(meth, 3, 3, none, [px], [py], 1.0, 1.0, -10.0, -20.0, "single", -1.0, True, VALS[:9], IMAG[:9], masked=True))
    # corrupted copies that the trace module must reject
    can = []
    for r in [r for r in recs if r["status"] == "ok" and any(r["valid"])][:5]:
        c = json.loads(json.dumps(r)); k = c["valid"].index(True); c["re"][k] += 40; can.append(c)
        c = json.loads(json.dumps(r)); k = c["valid"].index(True); c["valid"][k] = False; can.append(c)
    cfgT = "SPECIFICATION TraceSpec\nPOSTCONDITION Consumed\nCHECK_DEADLOCK FALSE\nCONSTANT D = 4\n"
    ctx.validate("InterpTrace", recs, cfg=cfgT, canaries=can)
    ctx.notes["interpolated_points"] = int(sum(len(r["x"]) for r in recs))
    ctx.notes["exhaustive"] = True
