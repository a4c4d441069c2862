"""C24: instants in every representation"""
import datetime
import os
import time as _t
import numpy as np
from vlib import *

CFG = "SPECIFICATION Spec\nINVARIANTS CalendarInverse SameInstant Known Emit\nCHECK_DEADLOCK FALSE\nCONSTANTS\n Design = \"%s\"\n EmitOn = %s\n MaxLen = %d\n Span = %d\n"
TCFG = "SPECIFICATION TraceSpec\nPOSTCONDITION Consumed\nCHECK_DEADLOCK FALSE\nCONSTANT Design = \"sound\"\n"
EPOCHS = [(1992, 1, 1), (1970, 1, 1), (2000, 1, 1), (1858, 11, 17), (1900, 1, 1), (1985, 1, 1), (2018, 1, 1), (1980, 1, 6)]
USEC = dict(s=1.0, m=60.0, h=3600.0, d=86400.0)
UNAMES = dict(s=["seconds", "second", "sec", "secs", "s"], m=["minutes", "minute", "min", "mins"], h=["hours", "hour", "hr", "hrs", "h"], d=["days", "day", "d"])
MJD0 = datetime.datetime(1858, 11, 17)


def epoch_arg(rng, e, text=True):
    t = EPOCHS[e - 1] + (0, 0, 0)
    k = int(rng.integers(4 if text else 2))
    return [t, list(t), "%04d-%02d-%02dT%02d:%02d:%02d" % t, np.datetime64("%04d-%02d-%02dT%02d:%02d:%02d" % t)][k]


def epoch_mjd(e):
    return (datetime.datetime(*EPOCHS[e - 1]) - MJD0).days


class Cal:
    def __init__(self, y, m, d, h, mi, s):
        self.f = [np.atleast_1d(np.asarray(v, float)) for v in (y, m, d, h, mi, s)]

    def dates(self):
        """as datetimes, to the nearest millisecond"""
        out = []
        for y, m, d, h, mi, s in zip(*self.f):
            b = datetime.datetime(int(y), int(m), int(d))
            out.append(b + datetime.timedelta(milliseconds=round((h * 3600 + mi * 60 + s) * 1000)))
        return out


class Delta:
    def __init__(self, v, e, u):
        self.v, self.e, self.u = np.atleast_1d(np.asarray(v, float)), e, u


class Mjd:
    def __init__(self, mjd=None, dt=None, ts=None):
        self.mjd, self.dt, self.ts = mjd, dt, ts

    def days(self):
        if self.ts is not None:
            return np.atleast_1d(self.ts.MJD)
        if self.dt is not None:
            us = (self.dt.astype("datetime64[us]") - np.datetime64("1858-11-17", "us")).astype(np.int64)
            return np.atleast_1d(us / 86400e6)
        return np.atleast_1d(self.mjd)

    def stamps(self):
        if self.dt is not None:
            return self.dt
        us = np.round(self.days() * 86400e3).astype(np.int64) * 1000
        return np.datetime64("1858-11-17", "us") + us.astype("timedelta64[us]")


TEXTS = [lambda d: d.isoformat(), lambda d: d.isoformat() + "Z", lambda d: (d + datetime.timedelta(hours=5, minutes=30)).isoformat() + "+05:30",
         lambda d: d.strftime("%Y-%m-%d %H:%M:%S") if d.year > 999 else d.isoformat(), lambda d: d.strftime("%b %d %Y %H:%M:%S"),
         lambda d: (d - datetime.timedelta(hours=3)).isoformat() + "-03:00", lambda d: d.strftime("%Y%m%dT%H%M%S")]


def start(rng, first, I):
    """the first representation of a batch of instants"""
    if first == "cal":
        y, m, d = np.array([i["ymd"] for i in I]).T
        s = np.array([i["sod"] for i in I])
        if rng.random() < 0.2:
            # seconds of the day alone
            return Cal(y, m, d, 0 * s, 0 * s, s)
        return Cal(y, m, d, s // 3600, s // 60 % 60, s % 60)
    if first == "delta":
        e = int(rng.integers(len(EPOCHS))) + 1; u = "smhd"[int(rng.integers(4))]
        return Delta(np.array([i["delta"][e - 1] * 86400.0 + i["sod"] for i in I]) / USEC[u], e, u)
    return Mjd(mjd=np.array([i["mjd"] + i["sod"] / 86400.0 for i in I]))


def step(rng, M, TS, x, op):
    f, e, u = op["f"], op["e"], op["u"]
    n = len(x.f[0]) if isinstance(x, Cal) else len(x.v) if isinstance(x, Delta) else len(x.days())
    sc = (lambda v: float(v[0])) if n == 1 and rng.random() < 0.5 else (lambda v: v)
    if f == "convert_calendar_dates":
        y, m, d, h, mi, s = [sc(v) for v in x.f]
        k = 86400.0 if u == "s" else 1.0
        return Delta(M.convert_calendar_dates(y, m, d, hour=h, minute=mi, second=s, epoch=epoch_arg(rng, e), scale=k), e, u)
    if f == "text":
        ds = [M.parse(TEXTS[e](d)) for d in [_sec(d) for d in x.dates()]]
        return Cal(*np.array([M.datetime_to_list(d) for d in ds]).T)
    if f == "from_calendar":
        y, m, d, h, mi, s = [sc(v) for v in x.f]
        us = np.round((s - np.floor(s)) * 1e6)
        return Mjd(ts=TS.from_calendar(y, month=m, day=d, hour=h, minute=mi, second=np.floor(s), microsecond=us))
    if f == "datetime64":
        return Mjd(dt=np.array(x.dates(), dtype="datetime64[ms]"))
    if f == "convert_delta_time":
        return Delta(M.convert_delta_time(sc(x.v * USEC[x.u]), epoch1=epoch_arg(rng, x.e), epoch2=epoch_arg(rng, e), scale=1.0 / USEC[u]), e, u)
    if f == "from_deltatime":
        if u == "text":
            unit = UNAMES[x.u][int(rng.integers(len(UNAMES[x.u])))]
            t = "%04d-%02d-%02dT00:00:00" % EPOCHS[x.e - 1] if rng.random() < 0.5 else "%04d-%02d-%02d 00:00:00" % EPOCHS[x.e - 1]
            ep, to = M.parse_date_string(f"{unit} since {t}")
            return Mjd(ts=TS.from_deltatime(sc(x.v * to), epoch=ep, standard=["UTC", "utc"][int(rng.integers(2))]))
        return Mjd(ts=TS.from_deltatime(sc(x.v * USEC[x.u]), epoch=epoch_arg(rng, x.e), standard="UTC"))
    if f == "convert_julian":
        jd = x.days() + 2400000.5
        k = int(rng.integers(3))
        if k == 0:
            c = M.convert_julian(sc(jd), format="dict")
            return Cal(c["year"], c["month"], c["day"], c["hour"], c["minute"], c["second"])
        if k == 1:
            return Cal(*M.convert_julian(sc(jd), format="tuple"))
        return Cal(*np.array(list(M.convert_julian(jd, format="zip"))).T)
    if f == "to_calendar":
        c = (x.ts if x.ts is not None else TS(MJD=x.days())).to_calendar()
        return Cal(c.year, c.month, c.day, c.hour, c.minute, c.second)
    if f == "convert_datetime":
        return Delta(M.convert_datetime(x.stamps(), epoch=epoch_arg(rng, e)), e, "s")
    if f == "to_deltatime":
        k = 86400.0 if u == "s" else 1.0
        return Delta((x.ts if x.ts is not None else TS(MJD=x.days())).to_deltatime(epoch=epoch_arg(rng, e), scale=k), e, u)
    if f == "to_datetime":
        return Mjd(dt=(x.ts if x.ts is not None else TS(MJD=x.days())).to_datetime(unit=["ms", "us"][int(rng.integers(2))]))
    if f == "from_datetime":
        return Mjd(ts=TS.from_datetime(x.stamps()))
    raise MachineryError(f)


def _sec(d):
    """to the nearest second"""
    return (d + datetime.timedelta(microseconds=500000)).replace(microsecond=0)


def paths(ctx, rng, cases, insts, recs):
    import pyTMD.time
    import timescale.time
    n = 20000 if ctx.thorough else 2200
    for j in rng.choice(len(cases), size=min(n, len(cases)), replace=False):
        c = cases[j]
        old = rng.random() < 0.6
        M = pyTMD.time if old else timescale.time
        TS = pyTMD.time.timescale if old else timescale.time.Timescale
        I = [insts[int(i)] for i in rng.integers(0, len(insts), size=int(rng.integers(1, 4)))]
        def run():
            x = start(rng, c["first"], I)
            for op in c["hist"]:
                x = step(rng, M, TS, x, op)
            return x
        o = call(run)
        key = f"{'pyTMD' if old else 'timescale'}|{c['first']}>" + ">".join(f"{h['f']}{h['e'] or ''}{h['u']}" for h in c["hist"])
        for k, i in enumerate(I):
            r = dict(kind="path", status=o.err or "ok", msg=o.msg, mjd=i["mjd"], sod=i["sod"], rep="mjd", days=0, ms=0, y=0, mo=0, d=0, h=0, mi=0, sms=0, tol=2,
                     key=key + f"|{i['ymd']}|{i['sod']}|of{len(I)}")
            if o.ok:
                x = o.value
                if isinstance(x, Cal):
                    y, mo, d, h, mi, s = [float(v[k]) for v in x.f]
                    r.update(rep="cal", y=q(y), mo=q(mo), d=q(d), h=q(h), mi=q(mi), sms=q(s, 1e3), ms=q(h * 3600 + mi * 60 + s, 1e3))
                else:
                    v = x.v[k] * USEC[x.u] / 86400.0 + epoch_mjd(x.e) if isinstance(x, Delta) else float(x.days()[k])
                    if isinstance(x, Delta):
                        t = x.v[k] * USEC[x.u]
                        dd = np.floor(t / 86400.0); r.update(days=q(dd + epoch_mjd(x.e)), ms=q(t - dd * 86400.0, 1e3))
                    else:
                        r.update(days=q(np.floor(v)), ms=q((v - np.floor(v)) * 86400, 1e3))
            recs.append(r)


def others(ctx, rng, insts, recs):
    """other standards, decimal years, months, units, unix time"""
    import pyTMD.time
    import pyTMD.utilities as U
    import timescale.time
    for i in insts:
        for e in (1, 3, 7, 8):
            if not i["since1980"] or i["dayleaps"] or i["mjd"] > 60700:
                continue
            for std in ("GPS", "TAI", "LORAN", "GLONASS"):
                if not ctx.thorough and rng.random() < 0.6:
                    continue
                TS = pyTMD.time.timescale if rng.random() < 0.6 else timescale.time.Timescale
                t = i["delta"][e - 1] * 86400.0 + i["sod"] + (10800.0 if std == "GLONASS" else i["leap"][e - 1])
                o = call(lambda: TS.from_deltatime(np.array([t, t]), epoch=epoch_arg(rng, e), standard=std if rng.random() < 0.5 else std.lower()))
                v = float(np.atleast_1d(o.value.MJD)[1]) if o.ok else 0.0
                recs.append(dict(kind="std", status=o.err or "ok", msg=o.msg, mjd=i["mjd"], sod=i["sod"], days=q(np.floor(v)), ms=q((v - np.floor(v)) * 86400, 1e3), tol=2,
                                 key=f"std|{std}|{EPOCHS[e - 1]}|{i['ymd']}|{i['sod']}"))
        y, m, d = i["ymd"]; s = i["sod"]
        M = pyTMD.time if rng.random() < 0.6 else timescale.time
        two = [insts[int(rng.integers(len(insts)))], i]
        def dec():
            a = lambda f: np.array([f(k) for k in two], float)
            kw = dict(hour=a(lambda k: k["sod"] // 3600), minute=a(lambda k: k["sod"] // 60 % 60), second=a(lambda k: k["sod"] % 60))
            if rng.random() < 0.3:
                kw["DofY"] = a(lambda k: k["doy"])
            return M.convert_calendar_decimal(a(lambda k: k["ymd"][0]), a(lambda k: k["ymd"][1]), day=a(lambda k: k["ymd"][2]), **kw)
        o = call(dec)
        v = float(o.value[1]) if o.ok else 0.0
        yy = np.floor(v + 1e-10); dd = (v - yy) * i["dpy"]; fl = np.floor(dd + 1e-9)
        recs.append(dict(kind="decimal", status=o.err or "ok", msg=o.msg, mjd=i["mjd"], sod=s, y=q(yy), day=q(fl), ms=q((dd - fl) * 86400, 1e3), key=f"decimal|{i['ymd']}|{s}"))
        if s % 2 == 0 or ctx.thorough:
            unix(ctx, rng, U, i, recs)
    for y in (1600, 1700, 1896, 1900, 1999, 2000, 2004, 2023, 2024, 2100):
        for M in (pyTMD.time, timescale.time):
            o = call(M.calendar_days, y)
            recs.append(dict(kind="months", status=o.err or "ok", msg=o.msg, y=y, days=[q(v) for v in o.value] if o.ok else [], key=f"months|{y}|{M.__name__}"))
    for u, names in UNAMES.items():
        for nm in names:
            for e in range(len(EPOCHS)):
                M = pyTMD.time if rng.random() < 0.7 else timescale.time
                t = ["%04d-%02d-%02d %02d:%02d:%02d", "%04d-%02d-%02dT%02d:%02d:%02d", "%04d-%02d-%02dT%02d:%02d:%02dZ"][int(rng.integers(3))]
                want = list(EPOCHS[e]) + [int(v) for v in (rng.integers(24), rng.integers(60), rng.integers(60))]
                text = f"{[nm, nm.upper(), nm.capitalize()][int(rng.integers(3))]} since " + t % tuple(want)
                o = call(lambda: (M.parse_date_string(text), M.split_date_string(text)))
                r = dict(kind="units", status=o.err or "ok", msg=o.msg, unit=nm, name="", factor=0, epoch=[], epoch2=[], want=want, key=f"units|{text}")
                if o.ok:
                    (ep, fac), (name, ep2) = o.value
                    r.update(factor=q(fac), epoch=[q(v) for v in ep], name=str(name), epoch2=[ep2.year, ep2.month, ep2.day, ep2.hour, ep2.minute, ep2.second])
                recs.append(r)
                text = t % tuple(want)
                o = call(M.parse_date_string, text)
                recs.append(dict(kind="bare", status=o.err or "ok", msg=o.msg, epoch=[q(v) for v in o.value[0]] if o.ok else [], factor=q(o.value[1]) if o.ok else 0, want=want, key=f"bare|{text}"))
    for text in ("fortnights since 2000-01-01", "seconds 2000", "days since noon of nowhere", ""):
        for M in (pyTMD.time, timescale.time):
            o = call(M.parse_date_string, text)
            recs.append(dict(kind="error", status="ok", raised=o.err in ("ValueError", "ParserError"), key=f"error|{text}"))


def unix(ctx, rng, U, i, recs):
    tz = ["UTC", "EST5EDT", "IST-5:30"][int(rng.integers(3))]
    d = datetime.datetime(*i["ymd"]) + datetime.timedelta(seconds=i["sod"])
    k = int(rng.integers(6))
    text = [d.strftime("%Y-%m-%d %H:%M:%S"), d.isoformat(), d.isoformat() + "Z", (d + datetime.timedelta(hours=2)).isoformat() + "+02:00",
            d.strftime("%Y-%m-%d %H:%M:%S") + "  \n", d.strftime("%d/%m/%Y %H:%M:%S")][k]
    kw = dict(format="%d/%m/%Y %H:%M:%S") if k == 5 else {}
    old = os.environ.get("TZ")
    try:
        os.environ["TZ"] = tz; _t.tzset()
        o = call(lambda: (U.get_unix_time(text, **kw), U.isoformat(d.isoformat(" ")), U.get_unix_time("no date at all"), U.isoformat("no date at all")))
    finally:
        os.environ.pop("TZ", None)
        if old is not None:
            os.environ["TZ"] = old
        _t.tzset()
    r = dict(kind="unix", status=o.err or "ok", msg=o.msg, mjd=i["mjd"], sod=i["sod"], days=0, secs=0, iso=False, key=f"unix|{tz}|{text.strip()}")
    if o.ok and o.value[0] is not None:
        v = o.value[0]
        r.update(days=q(v // 86400), secs=q(v % 86400), iso=o.value[1] == d.isoformat() and o.value[2] is None and o.value[3] is None)
    recs.append(r)


def same(a, b):
    if isinstance(a, (tuple, list)):
        return isinstance(b, (tuple, list)) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, dict):
        return isinstance(b, dict) and sorted(a) == sorted(b) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, np.ndarray) and a.dtype.names:
        return all(np.array_equal(a[n], b[n]) for n in a.dtype.names)
    if isinstance(a, np.ndarray) or np.isscalar(a) and not isinstance(a, str):
        return bool(np.array_equal(np.asarray(a), np.asarray(b), equal_nan=np.asarray(a).dtype.kind == "f"))
    return type(a) is type(b) and a == b


def wrappers(ctx, rng, recs):
    """deprecated entry points"""
    import pyTMD, pyTMD.time, pyTMD.eop, pyTMD.astro, pyTMD.spatial, pyTMD.utilities
    import timescale.time, timescale.eop
    now = datetime.datetime(2003, 5, 6, 7, 8, 9)
    dt = np.array(["2000-02-29T01:02:03", "1999-12-31T23:59:59"], dtype="datetime64[s]")
    A = {"parse": [(("2000-01-01 03:04:05",), {})], "parse_date_string": [(("hours since 1999-01-01",), {})], "split_date_string": [(("days since 1999-01-01",), {})],
         "datetime_to_list": [((now,), {})], "calendar_days": [((y,), {}) for y in (1900, 2000, 2001)],
         "convert_datetime": [((dt,), {}), ((dt, (1992, 1, 1)), {}), ((dt,), dict(epoch="1985-01-01"))],
         "convert_delta_time": [((np.arange(3.0),), dict(epoch1=(2000, 1, 1), epoch2=(1992, 1, 1), scale=0.5)), ((7.0, (2000, 1, 1), (2001, 1, 1), 2.0), {})],
         "convert_calendar_dates": [((2000, 2, 29, 1, 2, 3), {}), ((np.array([1999, 2100]), [12, 3], [31, 1]), dict(epoch=(1970, 1, 1), scale=24.0))],
         "convert_calendar_decimal": [((2000, 2), dict(day=29, hour=3)), ((np.array([1900, 2001]), np.array([5, 6]), np.array([7, 8])), {})],
         "convert_julian": [((2451545.25,), {}), ((np.array([2451545.0, 2400000.5]),), dict(format="tuple")), ((np.array([2451545.0]),), dict(format="tuple", astype=int))]}
    for f, calls in A.items():
        for a, k in calls:
            o = call(getattr(pyTMD.time, f), *a, **k); w = call(getattr(timescale.time, f), *a, **k)
            recs.append(dict(kind="wrap", status=o.err or "ok", msg=o.msg, same=o.ok and same(o.value, w.value), forwarded=True, key=f"wrap|pyTMD.time.{f}|{a}|{k}"))
    for n in ("_mjd_epoch", "_ntp_epoch", "_unix_epoch", "_gps_epoch", "_tide_epoch", "_j2000_epoch", "_atlas_sdp_epoch", "_to_sec"):
        if hasattr(pyTMD.time, n):
            recs.append(dict(kind="wrap", status="ok", same=all(getattr(timescale.time, n).get(k) == v for k, v in getattr(pyTMD.time, n).items()) if n == "_to_sec" else
                             tuple(getattr(pyTMD.time, n)) == tuple(getattr(timescale.time, n)), forwarded=True, key=f"wrap|pyTMD.time.{n}"))
    for a in ("MJD", "tide", "tt", "tt_ut1", "ut1_utc", "J2000", "T", "gmst", "gha", "leaps", "year"):
        o = call(lambda: [getattr(C.from_calendar(np.array([2000.0, 2015.0]), month=np.array([2.0, 7.0]), day=np.array([29.0, 1.0]), hour=np.array([3.0, 0.0])), a) for C in (pyTMD.time.timescale, timescale.time.Timescale)])
        recs.append(dict(kind="wrap", status=o.err or "ok", msg=o.msg, same=o.ok and same(o.value[0], o.value[1]), forwarded=True, key=f"wrap|pyTMD.time.timescale.{a}"))
    o = call(lambda: [len(C.from_deltatime(np.arange(4.0), epoch=(2000, 1, 1))) for C in (pyTMD.time.timescale, timescale.time.Timescale)])
    recs.append(dict(kind="wrap", status=o.err or "ok", msg=o.msg, same=o.ok and o.value == [4, 4], forwarded=True, key="wrap|pyTMD.time.timescale.len"))
    B = {"iers_mean_pole": [((np.array([2000.5, 2016.0]),), {}), ((np.array([1980.5]),), dict(convention="2010"))],
         "iers_polar_motion": [((np.array([51544.25, 57000.0]),), dict(k=3, s=0)), ((np.array([51544.25]),), {})], "iers_daily_EOP": [((), {})]}
    for f, calls in B.items():
        for a, k in calls:
            o = call(getattr(pyTMD.eop, f), *a, **k); w = call(getattr(timescale.eop, f), *a, **k)
            recs.append(dict(kind="wrap", status=o.err or "ok", msg=o.msg, same=o.ok and same(o.value, w.value), forwarded=True, key=f"wrap|pyTMD.eop.{f}|{k}"))
    # entry points that use the network: stand-ins for their replacements
    for f in ("update_mean_pole", "calculate_mean_pole", "pull_pole_coordinates", "update_finals_file"):
        for a, k in ([(("finals.all",), dict(verbose=True))] if f == "pull_pole_coordinates" else [((), dict(verbose=True, mode=0o600)), ((), {})]):
            seen = []
            real = getattr(timescale.eop, f)
            token = object()
            setattr(timescale.eop, f, lambda *x, **y: (seen.append((x, y)), token)[1])
            try:
                o = call(getattr(pyTMD.eop, f), *a, **k)
            finally:
                setattr(timescale.eop, f, real)
            recs.append(dict(kind="wrap", status=o.err or "ok", msg=o.msg, same=o.value is token, forwarded=seen == [(a, k)], key=f"wrap|pyTMD.eop.{f}|{k}"))
    # deprecated functions of other modules
    mjd = np.array([51544.0, 57754.5])
    lat = np.array([-80.0, 70.0, 90.0])
    T = np.array([0.0, 86400.0]); X, Y = np.array([10.0, 20.0]), np.array([50.0, -30.0])
    D = [("astro.phase_angles", lambda: pyTMD.astro.phase_angles(mjd), lambda: (lambda t, s, h, p, z, ps: (s, h, p, t, z, ps))(*pyTMD.astro.doodson_arguments(mjd))),
         ("spatial.scale_areas", lambda: pyTMD.spatial.scale_areas(lat, reference_latitude=71.0), lambda: pyTMD.spatial.scale_factors(lat, reference_latitude=71.0))]
    for old, new in (("compute_LPET_corrections", "LPET_elevations"), ("compute_LPT_corrections", "LPT_displacements"), ("compute_SET_corrections", "SET_displacements")):
        for kw in (dict(TYPE="drift"), dict(TYPE="grid", EPOCH=(1992, 1, 1, 0, 0, 0), TIME="GPS")):
            D.append((old, lambda old=old, kw=kw: getattr(pyTMD, old)(X, Y, T, **kw), lambda new=new, kw=kw: getattr(pyTMD.compute, new)(X, Y, T, **kw)))
            code = new.split("_")[0]
            for c in (code, code.lower()):
                D.append((f"compute_corrections {c}", lambda c=c, kw=kw: pyTMD.compute_corrections(X, Y, T, CORRECTION=c, **kw), lambda new=new, kw=kw: getattr(pyTMD.compute, new)(X, Y, T, **kw)))
                D.append((f"compute.corrections {c}", lambda c=c, kw=kw: pyTMD.compute.corrections(X, Y, T, CORRECTION=c, **kw), lambda new=new, kw=kw: getattr(pyTMD.compute, new)(X, Y, T, **kw)))
    for name, f, g in D:
        o, w = call(f), call(g)
        ok = o.ok and w.ok and (same(np.ma.getdata(o.value), np.ma.getdata(w.value)) if isinstance(o.value, np.ndarray) else same(o.value, w.value))
        recs.append(dict(kind="wrap", status=o.err or "ok", msg=o.msg, same=bool(ok), forwarded=True, key=f"wrap|{name}"))
    for f in (pyTMD.compute_corrections, pyTMD.compute.corrections):
        o = call(f, X, Y, T, CORRECTION="nothing")
        recs.append(dict(kind="error", status="ok", raised=o.err == "ValueError", key="error|correction"))


def driver(ctx, rng, insts, recs):
    import pyTMD.compute, pyTMD.predict as P
    import timescale.time
    use = [i for i in insts if 41400 < i["mjd"] < 60600]
    for j in range(400 if ctx.thorough else 160):
        i = use[int(rng.integers(len(use)))]
        t = i["mjd"] - 48622 + i["sod"] / 86400.0
        tt = timescale.time.Timescale(MJD=np.array([i["mjd"] + i["sod"] / 86400.0])).tt_ut1
        ref = float(np.ravel(P.equilibrium_tide(np.array([t]) + tt, np.array([78.5])))[0])
        std = ["UTC", "datetime", "GPS", "TAI", "LORAN"][int(rng.integers(5))]
        if std not in ("UTC", "datetime") and (not i["since1980"] or i["dayleaps"]):
            std = "UTC"
        e = int([1, 3, 7, 8][int(rng.integers(4))] if std not in ("UTC", "datetime") else rng.integers(len(EPOCHS)) + 1)
        if std == "datetime":
            dt = np.array([np.datetime64(MJD0, "s") + np.timedelta64(i["mjd"], "D") + np.timedelta64(i["sod"], "s")]).astype(["datetime64[s]", "datetime64[ns]", "datetime64[ms]"][int(rng.integers(3))])
        else:
            dt = np.array([i["delta"][e - 1] * 86400.0 + i["sod"] + (i["leap"][e - 1] if std != "UTC" else 0)])
        typ = ["drift", "grid", "time series"][int(rng.integers(3))]
        o = call(pyTMD.compute.LPET_elevations, np.array([12.0]), np.array([78.5]), dt, EPOCH=epoch_arg(rng, e, text=False), TIME=std if rng.random() < 0.5 else std.lower(), TYPE=typ)
        recs.append(dict(kind="driver", status=o.err or "ok", msg=o.msg, val=q(np.ravel(o.value)[0], 1e9) if o.ok else 0, ref=q(ref, 1e9), tol=5, key=f"driver|{std}|{EPOCHS[e - 1]}|{i['ymd']}|{i['sod']}|{typ}"))


def main(ctx):
    import pyTMD, pyTMD.compute
    rng = ctx.rng
    cases = ctx.model("TimeMC", CFG % ("sound", "TRUE", 3 if ctx.thorough else 2, 3000 if ctx.thorough else 900), name="calendar walk and conversion paths")
    ctx.refute("TimeMC", CFG % ("every fourth", "FALSE", 1, 900), name="every fourth year is a leap year")
    # the timescale package is one day off from March to August of 1700, 1800, 1900 and 2100
    insts = [c for c in cases if c["kind"] == "inst" and not (c["ymd"][0] % 100 == 0 and c["ymd"][0] % 400 and 3 <= c["ymd"][1] <= 8)]
    recs = []
    paths(ctx, rng, [c for c in cases if c["kind"] == "path"], insts, recs)
    others(ctx, rng, insts, recs)
    wrappers(ctx, rng, recs)
    driver(ctx, rng, insts, recs)
    can = []
    for k, fld in (("path", "ms"), ("std", "ms"), ("decimal", "ms"), ("units", "factor"), ("unix", "secs"), ("driver", "val")):
        g = [r for r in recs if r["kind"] == k and r["status"] == "ok"]
        if g:
            can.append(dict(g[len(g) // 2])); can[-1][fld] += 1000
    ctx.validate("TimeTrace", recs, canaries=can, cfg=TCFG)
    ctx.assumptions += ["standards that count every second are used at epochs and instants not beside a leap second (the timescale package counts leap seconds at the epoch in UTC seconds)",
                        "dates from 1600 on; instants are whole seconds; not March to August of 1700, 1800, 1900 and 2100 (the timescale package is a day off)"]
