"""C30: nodal modulation has the published form of its convention"""
import json
import numpy as np
from vlib import *

CFG = "SPECIFICATION Spec\nINVARIANTS Triangle InRange Conjugate Average Agree\nCHECK_DEADLOCK FALSE\nCONSTANTS\n Ps = {%s}\n EmitOn = %s\n"
CLASS = {"O": ["OTIS", "ATLAS", "TMD3", "netcdf"], "F": ["FES"], "P": ["perth3"], "G": ["GOT"]}


def triangle(n):
    """obliquity of the lunar orbit, xi and nu from the spherical triangle (radians)"""
    om, i, N = np.radians(23.452), np.radians(5.145), np.radians(n)
    cI = np.cos(i) * np.cos(om) - np.sin(i) * np.sin(om) * np.cos(N)
    nu = np.arctan2(np.sin(i) * np.sin(N), np.cos(i) * np.sin(om) + np.sin(i) * np.cos(om) * np.cos(N))
    arc = np.arctan2(np.sin(om) * np.sin(N) / np.sqrt(1 - cI**2), np.cos(N) * np.cos(nu) + np.sin(N) * np.sin(nu) * np.cos(om))
    xi = np.angle(np.exp(1j * (N - arc)))
    return cI, xi, nu


def basis(n, p):
    n, p = float(n), float(p)
    cI, xi, nu = triangle(n)
    I, P = np.arccos(cI), np.radians(p)
    h = np.radians([n, 2 * n, 2 * p, 2 * p - n, p, p - n, 2 * (n - p), 3 * n])
    t = lambda v: q(v, 1e4)
    return dict(s=[t(v) for v in np.sin(h)], c=[t(v) for v in np.cos(h)], sI=t(np.sin(I)), cI=t(cI),
                sh=t(np.sin(I / 2)), ch=t(np.cos(I / 2)), xi=q(xi, 1e5), nu=q(nu, 1e5), snu=t(np.sin(nu)), cnu=t(np.cos(nu)),
                s2nu=t(np.sin(2 * nu)), c2nu=t(np.cos(2 * nu)), s2q=t(np.sin(2 * (P - xi))), c2q=t(np.cos(2 * (P - xi))),
                s2d=t(np.sin(2 * (p - xi))), c2d=t(np.cos(2 * (p - xi))))


def point(n, p, f, u, ab):
    cI, xi, nu = triangle(float(n))
    f, u = float(f), float(u)
    w = ab[0] * xi + ab[1] * nu - u
    return dict(b=basis(n, p), f=q(f, 1e5), f2=q(f * f, 1e4), fs=q(f * np.sin(u), 1e5), fc=q(f * np.cos(u), 1e5),
                u=q(np.angle(np.exp(1j * u)), 1e5), su=q(np.sin(u), 1e4), cu=q(np.cos(u), 1e4), sw=q(np.sin(w), 1e4), cw=q(np.cos(w), 1e4))


def main(ctx):
    import pyTMD.arguments as A
    import pyTMD.astro as astro
    ps = "0, 5, 14" if not ctx.thorough else ", ".join(map(str, range(24)))
    ctx.model("ModulationMC", CFG % (ps, "FALSE"), name="a cycle of the node")
    cases = ctx.model("ModulationMC", CFG % ("0", "TRUE"), name="constituents and classes")
    rng = ctx.rng
    # constituents with arguments, and those whose modulation only enters compounds
    known = {c["c"] for c in cases if call(A.coefficients_table, [c["c"]]).ok}
    recs, canaries = [], []
    npts = 14 if not ctx.thorough else 80

    def longs(k):
        """node and perigee, inside and outside one turn, and the turning points"""
        n = np.r_[0.0, 180.0, 90.0, rng.uniform(0, 360, k - 5), rng.uniform(-360, 0), rng.uniform(360, 720)]
        p = np.r_[0.0, 45.0, 90.0, rng.uniform(0, 360, k - 5), rng.uniform(360, 720), rng.uniform(-360, 0)]
        return n, p

    def mean(mjd, dt, conv):
        s, h, p, n, pp = astro.mean_longitudes(mjd + dt, ASTRO5=conv not in CLASS["O"])
        tau = 15.0 * 24.0 * np.mod(mjd, 1) - s + h
        return np.c_[tau, s, h, p, n, pp, 90.0 + 0 * s]

    def add(key, kind, cl, o, lon, ab, **kw):
        r = dict(key=key, kind=kind, cl=cl, status="ok", pts=[], **kw)
        if not o.ok:
            r["status"] = "raised"
            r["error"] = (o.err + " " + o.msg)[:200]
        else:
            f, u, n, p = lon(o.value)
            if np.shape(f) != np.shape(n) or np.shape(u) != np.shape(n):
                r["status"] = "shape"
            else:
                r["pts"] = [point(n[i], p[i], f[i], u[i], ab) for i in range(len(n))]
        recs.append(r)
        return r

    ab = {(c["cl"], c["c"]): c["ab"] for c in cases}
    for c in cases:
        ab.update({(c["cl"], m): v for m, v in enumerate(c["minors"])})
    for c in cases:
        cl, name = c["cl"], c["c"]
        for conv in CLASS[cl]:
            n, p = longs(npts if conv == CLASS[cl][0] else 6)
            o = call(A.nodal, n.copy(), p.copy(), [name] if conv == CLASS[cl][0] else name, corrections=conv)
            add("nodal %s %s" % (conv, name), "nodal", cl, o, lambda v: (v[1][:, 0], v[0][:, 0], n, p), ab[cl, name], c=name)
            # through the arguments at dates
            if name in known:
                dt = float(rng.choice([0.0, 0.00075]))
                mjd = 48000.0 + rng.uniform(0, 15000, 4)
                o = call(A.arguments, mjd.copy(), ["m2", name], corrections=conv, deltat=dt)
                fa = mean(mjd, dt, conv)
                add("arguments %s %s" % (conv, name), "args", cl, o, lambda v: (v[1][:, 1], v[0][:, 1], fa[:, 4], fa[:, 3]), ab[cl, name], c=name)
    for m1 in ("Doodson", "Ray", "perth5"):
        for cl in CLASS:
            for conv in CLASS[cl]:
                n, p = longs(npts)
                o = call(A.nodal, n.copy(), p.copy(), ["m1"], corrections=conv, M1=m1)
                add("m1 %s %s" % (m1, conv), "m1", cl, o, lambda v: (v[1][:, 0], v[0][:, 0], n, p), (0, 0), m1=m1)
    # the minor constituents of the inference
    for cl in CLASS:
        for conv in CLASS[cl]:
            dt = float(rng.choice([0.0, 0.00075]))
            mjd = 44000.0 + rng.uniform(0, 18000, npts)
            o = call(A.minor_arguments, mjd.copy(), corrections=conv, deltat=dt)
            fa = mean(mjd, dt, conv)
            for m in range(20):
                oo = o
                if o.ok and (np.shape(o.value[0]) != (npts, 20) or np.shape(o.value[1]) != (npts, 20) or np.shape(o.value[2]) != (npts, 20)):
                    oo = call(lambda: 1 / 0)
                r = add("minor %s %d" % (conv, m + 1), "minor", cl, oo, lambda v: (v[1][:, m], v[0][:, m], fa[:, 4], fa[:, 3]), ab[cl, m], m=m + 1)
                for i, pt in enumerate(r["pts"]):
                    pt["G"] = q(np.mod(o.value[2][i, m], 360.0), 1e4)
                    pt["args"] = [q(np.mod(a, 360.0), 1e4) for a in fa[i]]

    def spoil(key, field, d, want=None):
        r = json.loads(json.dumps([x for x in recs if x["key"] == key][0]))
        if not r["pts"]:
            return
        r["pts"][-1][field] += d
        canaries.append(dict(r, key="canary " + key + " " + field))
    spoil("nodal OTIS m2", "fc", 60, "PublishedFactor")
    spoil("nodal FES m2", "sw", 40, "PublishedPhase")
    spoil("nodal FES k1", "f2", 60, "PublishedFactor")
    spoil("nodal perth3 o1", "u", 60, "PublishedPhase")
    spoil("minor GOT 12", "G", 900, "DoodsonArgument")
    ctx.notes["forms"] = len(cases)
    ctx.validate("ModulationTrace", recs, canaries=canaries)
