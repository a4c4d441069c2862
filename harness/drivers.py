"""requests of DriverMC to the high-level functions"""
import datetime
import numpy as np
from vlib import call, q

SPELL = dict(drift=["drift", "Drift", "DRIFT", None, "drift"], grid=["grid", "Grid", "GRID", None, "grid"],
             **{"time series": ["time series", "Time Series", "TIME SERIES", None, "time series"]})
INSTANTS = [(50500, 21600), (50629, 43200), (50630, 43200), (53000, 0), (53735, 64800), (53736, 21600), (57754, 5400), (58849, 77777), (42050, 43200)]
EPSGS = [4326, "4326", "EPSG:4326", 3031, "EPSG:3031", 3413, "+proj=longlat +datum=WGS84 +no_defs", "+proj=merc +datum=WGS84", "+proj=laea +lat_0=20 +lon_0=100 +datum=WGS84"]


def mjd_date(d):
    return datetime.datetime(1858, 11, 17) + datetime.timedelta(days=int(d))


def npoints(layout, dims):
    return dims[0] * dims[1] if layout == "grid" else dims[0]


def ninst(layout, dims):
    return dims[-1]


def times(req, ix, numeric=True):
    """(delta_time, EPOCH, TIME) of the instants ix"""
    if req["std"] == "datetime":
        return np.array([np.datetime64(mjd_date(INSTANTS[i][0])) + np.timedelta64(INSTANTS[i][1], "s") for i in ix]), (2000, 1, 1, 0, 0, 0), "datetime"
    e = mjd_date(req["epoch"])
    w = [req["when"][i] for i in ix]
    return np.array([x["days"] * 86400.0 + x["secs"] for x in w]), (e.year, e.month, e.day, 0, 0, 0), req["std"]


def auto_ok(layout, dims, x, y, t):
    """whether the layout can be told from the dimensions alone"""
    nx, ny, nt = np.size(x), np.size(y), np.size(t)
    if layout == "time series":
        return nx == 1
    if layout == "drift":
        return nx == nt and nx > 1
    return nx != ny or (np.ndim(x) > 1 and nx != nt)


def timescale_at(i):
    import timescale.time
    d, s = INSTANTS[i]
    return timescale.time.Timescale().from_deltatime(np.array([(d - 51544) * 86400.0 + s]), epoch=(2000, 1, 1, 0, 0, 0), standard="UTC")


def flat(out, scale):
    """cells of an answer (last axis fastest): validity and lattice values"""
    m = np.ma.getmaskarray(out).ravel() if np.ma.isMaskedArray(out) else np.zeros(np.size(out), bool)
    d = np.ma.getdata(out).ravel()
    v = [not bool(a) for a in m]
    return v, [q(x, scale) if ok else 0 for x, ok in zip(d, v)]


def fill_ok(out, fill):
    if not np.ma.isMaskedArray(out):
        return True
    m = np.ma.getmaskarray(out)
    d = out.data
    same = np.isnan(d) if np.isnan(fill) else d == fill
    return bool(np.array_equal(same, m)) and bool((np.isnan(out.fill_value) and np.isnan(fill)) or out.fill_value == fill)
