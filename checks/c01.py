"""C01: a predicted tide is the masked superposition of its constituents"""
import json
import numpy as np
from vlib import *

CFG = """SPECIFICATION Spec
INVARIANTS Superposition Masking
CHECK_DEADLOCK FALSE
CONSTANTS
 NC = %d
 NE = %d
 Layouts = {"map", "drift", "series"}
"""
OTIS33 = ['m2', 's2', 'k1', 'o1', 'n2', 'p1', 'k2', 'q1', '2n2', 'mu2', 'nu2', 'l2', 't2', 'j1', 'm1', 'oo1', 'rho1',
          'mf', 'mm', 'ssa', 'm4', 'ms4', 'mn4', 'm6', 'm8', 'mk3', 's6', '2sm2', '2mk3', 'msf', 'sa', 'mt', '2q1']
# largest disagreement of the seven-digit frequencies: compound overtides, 1e-3 deg/day
OTHER = ['s1', 'eps2', 'mtm', 'lambda2', 'r2', 'm3', 'msqm', 's4', 'chi1', 'mks2', 'node', 'n4']
CONV = ["OTIS", "FES", "GOT", "perth3", "ATLAS", "TMD3"]


def main(ctx):
    import pyTMD.predict as P, pyTMD.arguments as A
    cases = []
    for nc, ne in ((2, 3), (3, 2)) if not ctx.thorough else ((2, 3), (3, 2), (3, 3), (4, 1)):
        cases += [(nc, ne, c) for c in ctx.model("PredictMC", CFG % (nc, ne), name=f"NC={nc} NE={ne}")]
    recs = []
    cache = {}

    def fdt(dt, i):
        return dt if np.ndim(dt) == 0 else dt[i]

    def basis(conv, c, t, dt):
        """response of one constituent alone at one time to unit parts"""
        key = (conv, c, float(t), float(dt))
        if key not in cache:
            out = []
            for h in (1.0 + 0.0j, 0.0 + 1.0j):
                hc = np.ma.array([[h]], mask=[[False]])
                o = call(P.time_series, np.array([t]), hc, [c], deltat=float(dt), corrections=conv)
                out.append(float(o.value[0]) if o.ok and np.size(o.value) == 1 else float("nan"))
            cache[key] = out
        return cache[key]

    def run(layout, conv, names, t, hc, deltat):
        """call the layout's function; returns (Outcome, flattened value, mask)"""
        f = dict(map=P.map, drift=P.drift, series=P.time_series)[layout]
        o = call(f, (t if layout != "map" else t[:1]), hc, names, deltat=deltat, corrections=conv)
        if not o.ok:
            return o, None, None
        v = np.ma.atleast_1d(o.value)
        return o, np.asarray(v.data, dtype=float).ravel(), np.array(np.ma.getmaskarray(v)).ravel()

    def scenario(layout, conv, names, t, re, im, mask, dt, cuts, key, order=None):
        """re/im/mask are [loc][constituent in base order]"""
        nloc, nc = re.shape
        n = len(t) if layout != "map" else nloc
        order = list(range(nc)) if order is None else order
        nm = [names[k] for k in order]
        hc = np.ma.array(re[:, order] + 1j * im[:, order], mask=mask[:, order])
        hc.data[hc.mask] = [(-9999.0 + 5j), complex(np.nan, np.nan), 1e20][len(recs) % 3]
        spans = [(a, b) for a, b in zip([0] + cuts, cuts + [n]) if b > a]
        for a, b in spans:
            h = hc[a:b].copy() if layout != "series" else hc.copy()
            tt = np.array(t[a:b] if layout != "map" else t[:1], dtype=float)
            dd = dt if np.ndim(dt) == 0 else (dt[a:b] if layout != "map" else dt[:1])
            dd0 = np.array(dd, copy=True)
            h0 = h.copy(); t0 = tt.copy(); nm0 = list(nm)
            arg = nm if len(recs) % 2 else np.array(nm)
            o, v, m = run(layout, conv, arg, tt, h, dd)
            kept = bool(np.array_equal(h0.data, h.data, equal_nan=True) and np.array_equal(np.ma.getmaskarray(h0), np.ma.getmaskarray(h))
                        and np.array_equal(t0, tt) and list(arg) == nm0 and np.array_equal(dd0, dd))
            recs.append(dict(ev="call", st="ok" if o.ok else o.err, n=len(v) if o.ok else 0, want=b - a, kept=kept, key=f"{key}:call:{a}-{b}:{o.err}"))
            if not o.ok or len(v) != b - a:
                continue
            for e in range(a, b):
                x = 0 if layout == "series" else e
                te = t[0] if layout == "map" else t[e]
                de = fdt(dt, 0 if layout == "map" else e)
                B = [basis(conv, c, te, de) for c in names]
                recs.append(dict(ev="elem", st="ok", masked=bool(m[e - a]), val=q(v[e - a], 1e6), m=[bool(i) for i in mask[x]],
                                 re=[int(i) for i in re[x]], im=[int(i) for i in im[x]],
                                 C=[q(i[0], 1e6) for i in B], S=[q(i[1], 1e6) for i in B], key=f"{key}:{a}-{b}:e{e}"))

    pool = OTIS33 + OTHER
    rng = ctx.rng
    for i, (nc, ne, c) in enumerate(cases):
        conv = CONV[i % 6]
        names = [pool[j] for j in rng.choice(len(pool), size=nc, replace=False)]
        lay = c["layout"]
        nloc = 1 if lay == "series" else ne
        re = rng.integers(-4, 5, size=(nloc, nc)); im = rng.integers(-4, 5, size=(nloc, nc))
        mask = np.array(c["mask"], dtype=bool).reshape(nloc, nc)
        t = np.round(rng.random(ne) * 11000 * 24) / 24.0 - 400.0
        dt = 0.0 if i % 3 == 0 else (0.00068 if i % 3 == 1 else 0.0005 + 1e-4 * np.arange(len(t) if lay != "map" else 1))
        scenario(lay, conv, names, t, re, im, mask, dt, [c["cut"]] if c["cut"] else [],
                 f"{lay}:{conv}:{'+'.join(names)}:o{''.join(map(str, c['order']))}:m{''.join('01'[int(b)] for b in mask.ravel())}:c{c['cut']}",
                 [k - 1 for k in c["order"]])
    # many constituents, many elements, coincident sizes (as many locations as times or constituents)
    for i in range(120 if ctx.thorough else 36):
        lay = ["map", "drift", "series"][i % 3]
        conv = CONV[(i // 3) % 6]
        nc = int(rng.integers(1, 12)); n = nc if i % 4 == 0 else int(rng.integers(1, 14))
        names = [pool[j] for j in rng.choice(len(pool), size=nc, replace=False)]
        nloc = 1 if lay == "series" else n
        re = rng.integers(-4, 5, size=(nloc, nc)); im = rng.integers(-4, 5, size=(nloc, nc))
        mask = rng.random((nloc, nc)) < 0.08
        t = np.round(rng.random(n) * 11000 * 24) / 24.0
        if i % 5 == 0:
            t = t * 0 + t[0]
        cuts = sorted(set(int(v) for v in rng.integers(1, n, size=2))) if n > 2 and i % 2 else []
        scenario(lay, conv, names, t, re, im, mask, 0.0007 if i % 2 else 0.0, cuts, f"big:{lay}:{conv}:{i}")
    # the basis itself: amplitude factor and argument of that constituent at that time
    for conv in CONV:
        for c in pool:
            for t in (-310.25, 12.5, 2921.375, 9131.0):
                b = basis(conv, c, t, 0.0)
                pu, pf, G = A.arguments(np.array([t + 48622.0]), [c], corrections=conv)
                C, S = b
                # cos part answers cos(th), sine part answers -sin(th)
                ang = np.degrees(np.arctan2(-S, C)); amp = np.hypot(C, S)
                hc = np.ma.array([[0.6 - 0.8j]], mask=[[False]])
                o = call(P.drift, np.array([t]), hc, [c], corrections=conv)
                o2 = call(P.drift, np.array([t]), hc * 1j, [c], corrections=conv)
                z = complex(float(o.value[0]), float(o2.value[0])) if o.ok and o2.ok else complex(np.nan)
                # response to h is Re(h e^{i th}), response to ih is Re(i h e^{i th})
                w = z.real - 1j * z.imag if np.isfinite(z.real) else complex(np.nan)
                ang2 = np.degrees(np.angle(w)) - np.degrees(np.angle(0.6 - 0.8j)) if np.isfinite(z.real) else float("nan")
                table = conv in ("OTIS", "ATLAS", "TMD3") and c in OTIS33
                recs.append(dict(ev="basis", amp=q(amp, 1e6), f=q(pf[0, 0], 1e6), amp2=q(abs(w), 1e6), ang=q(np.mod(ang, 360), 1e5),
                    ang2=q(np.mod(ang2, 360), 1e5), g=q(np.mod(G[0, 0], 360), 1e5), u=q(np.degrees(pu[0, 0]), 1e5), table=table,
                    absdays=int(abs(t)), drift=120 if c in ("mn4", "m4", "m6", "m8", "mk3", "2mk3") else 12, key=f"basis:{conv}:{c}:{t}"))
    can = []
    for r in [r for r in recs if r["ev"] == "elem" and not any(r["m"])][:3]:
        k = json.loads(json.dumps(r)); k["val"] += 3 + 40; can.append(k)
    for r in [r for r in recs if r["ev"] == "elem" and any(r["m"])][:2]:
        k = json.loads(json.dumps(r)); k["masked"] = False; can.append(k)
    for r in [r for r in recs if r["ev"] == "basis" and not r["table"]][:3]:
        k = json.loads(json.dumps(r)); k["ang"] += 200; can.append(k)
    ctx.assumptions += ["harmonic constants are small integers, element values compared to 1e-6 times the sum of their magnitudes"]
    ctx.validate("PredictTrace", recs, canaries=can)
