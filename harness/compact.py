"""ATLAS-compact files of the scenarios of CompactMC.tla, and what the readers make of them"""
import json
import numpy as np
from vlib import call, jsonable

NAMES = ["m2", "k1", "2n2", "eps2", "q1", "s2", "mu2"]
NX1, NY1 = 3, 3


def val(k, c, n, s):
    return 10000 * k + 1000 * c + 10 * n + s


def _i(a):
    return np.array(a, dtype=">i4").tobytes()


def _f(a):
    return np.array(a, dtype=">f4").tobytes()


def rec(*parts):
    b = b"".join(parts)
    return _i([len(b)]) + b + _i([len(b)])


def names_of(sc):
    """global names, and the names of every patch: its has-th is the constituent ic"""
    glob = NAMES[:sc["f"]["nc"]]
    want = glob[sc["ic"] - 1]
    out = []
    for p, h in zip(sc["f"]["patch"], sc["has"]):
        others = [n for n in NAMES if n != want]
        ns = others[:p["nc"]]
        if h:
            ns[h - 1] = want
        out.append(ns)
    return glob, out


def packed(names):
    return b"".join(f"{n:<4}".encode() for n in names)


def places(rng, n):
    k = rng.choice(NX1 * NY1, size=n, replace=False)
    return [[int(v % NX1) + 1, int(v // NX1) + 1] for v in k]


def write_con(path, sc, pl):
    f = sc["f"]; uv = f["uv"]
    glob, loc = names_of(sc)
    nn = f["nx"] * f["ny"]
    out = rec(_i([f["nx"], f["ny"], f["nc"]]), _f([0, f["ny"]]), _f([0, f["nx"]]), packed(glob))
    for c in range(1, f["nc"] + 1):
        out += rec(_f([[val(0, c, n, s) for s in ((1, 2, 3, 4) if uv else (1, 2))] for n in range(1, nn + 1)]))
    for k, p in enumerate(f["patch"], 1):
        z, v = pl[k - 1]["z"], pl[k - 1]["v"]
        dims = [NX1, NY1, p["nc"], len(z)] + ([len(v)] if uv else [])
        out += rec(_i(dims), _f([0, 1]), _f([10 * k, 10 * k + 1]), packed(loc[k - 1]), f"{k:<20}".encode())
        for nodes in ([z, v] if uv else [z]):
            out += rec(_i([a[0] for a in nodes]), _i([a[1] for a in nodes]))
        for c in range(1, p["nc"] + 1):
            out += rec(_f([[val(k, c, n, 1), val(k, c, n, 2)] for n in range(1, len(z) + 1)]))
            if uv:
                out += rec(_f([[val(k, c, n, 3), val(k, c, n, 4)] for n in range(1, len(v) + 1)]))
    path.write_bytes(out)


def write_grid(path, sc, pl, nob):
    f = sc["f"]; nn = f["nx"] * f["ny"]
    out = rec(_i([f["nx"], f["ny"]]), _f([0, 2 * f["ny"]]), _f([0, 2 * f["nx"]]), _f([12.0]), _i([nob]))
    out += rec(_i(np.arange(2 * nob) if nob else [0]))
    out += rec(_f([val(0, 0, n, 0) for n in range(1, nn + 1)])) + rec(_i([n % 2 for n in range(1, nn + 1)])) + rec(_i([n % 3 for n in range(1, nn + 1)]))
    for k, p in enumerate(f["patch"], 1):
        z = pl[k - 1]["z"]
        out += rec(_i([NX1, NY1, len(z)]), _f([0, 1]), _f([10 * k, 10 * k + 1]), f"{k:<20}".encode())
        out += rec(_i([a[0] for a in z]), _i([a[1] for a in z])) + rec(_f([val(k, 0, n, 0) for n in range(1, len(z) + 1)]))
    path.write_bytes(out)


def _int(v):
    return int(round(float(v))) if np.isfinite(v) and abs(v) < 9e8 else -999999


def _local(local, var):
    keys, vals = [], []
    for nm, d in local.items():
        keys.append(int(nm.decode() if isinstance(nm, bytes) else nm))
        a = d[var]; m = np.ma.getmaskarray(a)
        e = []
        for j, i in zip(*np.nonzero(~m)):
            v = a.data[j, i]
            e.append([int(i) + 1, int(j) + 1] + ([_int(v.real), _int(v.imag)] if np.iscomplexobj(a) else [_int(v)]))
        keys_ok = True
        vals.append(e)
    return keys, vals


def replay(ctx, sc, rng, recs, key):
    from pyTMD.io import OTIS
    f = sc["f"]
    sc["has"] = sc["has"] or []
    pl = [dict(z=places(rng, p["nz"]), v=places(rng, p["nv"])) for p in f["patch"]]
    d = ctx.scratch / "compact"; d.mkdir(exist_ok=True)
    write_con(d / "con", sc, pl)
    glob, _ = names_of(sc)
    want = glob[sc["ic"] - 1]
    o = call(OTIS.read_constituents, d / "con", grid="ATLAS")
    recs.append(dict(kind="names", status="ok" if o.ok else o.err, want=glob, got=[str(c) for c in o.value[0]] if o.ok else [], key=key + "|names"))
    base = dict(f=f, ic=sc["ic"], has=sc["has"], places=pl)
    pairs = lambda a: [[_int(v.real), _int(v.imag)] for v in np.ma.getdata(a).ravel()]
    if f["uv"]:
        o = call(OTIS.read_atlas_transport, d / "con", sc["ic"] - 1, want)
        got = dict(u=o.value[0], v=o.value[1]) if o.ok else {}
    else:
        o = call(OTIS.read_atlas_elevation, d / "con", sc["ic"] - 1, want)
        got = dict(z=o.value[0]) if o.ok else {}
    for var in (("u", "v") if f["uv"] else ("z",)):
        r = dict(base, kind="con", var=var, status="ok" if o.ok else o.err, msg=o.msg, main=[], keys=[], vals=[], key=f"{key}|{var}")
        if o.ok:
            r["main"] = pairs(got[var])
            r["keys"], r["vals"] = _local(o.value[-1], var)
        recs.append(r)
    write_grid(d / "grid", sc, pl, int(rng.integers(0, 3)))
    o = call(OTIS.read_atlas_grid, d / "grid")
    r = dict(base, kind="grid", status="ok" if o.ok else o.err, msg=o.msg, key=key + "|grid")
    if o.ok:
        x, y, hz, mz, iob, dt, pm, local = o.value
        r.update(hz=[_int(v) for v in np.ravel(hz)], mz=[_int(v) for v in np.ravel(mz)], pm=[_int(v) for v in np.ravel(pm)],
                 x=[_int(v) for v in x], y=[_int(v) for v in y])
        r["keys"], r["vals"] = _local(local, "depth")
    recs.append(r)
