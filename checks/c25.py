"""C25: reference ellipsoids"""
import numpy as np
from vlib import *

ATTRS = "a_axis b_axis rad_e rad_p ecc ecc1 ecc2 ratio flat GM omega m J2 C20 gamma_a gamma_b dk U0 area volume G gamma rho_e".split()
# CGS over MKS
FACT = dict(a_axis=100, b_axis=100, rad_e=100, rad_p=100, ecc=100, GM=1e6, gamma_a=100, gamma_b=100, U0=1e4, area=1e4, volume=1e6,
            G=1000, gamma=100, rho_e=1e-3)


def observe(d, f=1.0):
    """f: length unit of the object in metres"""
    a, b = d.a_axis * f, d.b_axis * f
    g = lambda x: x * f
    r = dict(a=q(a, 10), rf=q(1 / d.flat, 1e6), gm=q(d.GM * f**3, 1e-6), om=q(d.omega, 1e11), b=q(b, 10), c=q(d.ecc * f, 10),
             r=q(d.rad_e * f, 10), rp=q(d.rad_p * f, 10), e1sq=q(d.ecc1**2, 1e10), e2sq=q(d.ecc2**2, 1e10), m=q(d.m, 1e10), J2=q(d.J2, 1e10),
             ga=q(g(d.gamma_a), 1e6), gb=q(g(d.gamma_b), 1e6), k=q(d.dk, 1e8), u0=q(d.U0 * f * f, 1e-2),
             af=q(a * d.flat, 10), ratio=q(d.ratio, 1e8), bova=q(b / a, 1e8),
             c2=q((d.ecc * f)**2, 1e-4), a2b2=q(a * a - b * b, 1e-4), c2a2=q((d.ecc / d.a_axis)**2, 1e10), c2b2=q((d.ecc / d.b_axis)**2, 1e10),
             a2ob=q(a * a / b, 10), r3=q((d.rad_e * f)**3 / 1e20, 1e6), a2b=q(a * a * b / 1e20, 1e6),
             vol=q(d.volume * f**3 / (4 * np.pi / 3) / 1e20, 1e6), area=q(d.area * f**2 / (4 * np.pi) / 1e13, 1e8), rsq=q((d.rad_e * f)**2 / 1e13, 1e8),
             c20s5=q(d.C20 * np.sqrt(5.0), 1e10), f8=q(d.flat, 1e8), fstar=q(d.gamma_b / d.gamma_a - 1, 1e8), clair=q((d.omega**2 * d.b_axis / d.gamma_a) * (1 + d.ecc2 * (3 * (1 + 1 / d.ecc2**2) * (1 - np.arctan(d.ecc2) / d.ecc2) - 1) / (2 * (0.5 * ((1 + 3 / d.ecc2**2) * np.arctan(d.ecc2) - 3 / d.ecc2)))), 1e8),
             g0pole=q(g(d.gamma_0(0.0)), 1e6), g0eq=q(g(d.gamma_0(np.pi / 2)), 1e6), g0mid=q(g(d.gamma_0(np.pi / 4)), 1e6),
             gh0=q(g(d.gamma_h(np.pi / 4, 0.0)), 1e6), gh1=q(g(d.gamma_h(np.pi / 4, 1000.0 / f)), 1e6),
             up=[dict(c=k, n=n, v=q(d.gamma_h(np.arccos(np.sqrt(k / 2)), d.a_axis / n) / d.gamma_0(np.arccos(np.sqrt(k / 2))), 1e8))
                 for k in (0, 1, 2) for n in (64, -64, 256, 20)])
    return r


def main(ctx):
    from pyTMD.crs import datum
    cases = ctx.model("DatumMC", "SPECIFICATION Spec\nINVARIANTS Sane AxisTable Emit\nCHECK_DEADLOCK FALSE\nCONSTANT MaxLen = 2\n")
    if not ctx.thorough:
        cases = [cases[i] for i in sorted(ctx.rng.choice(len(cases), size=250, replace=False))]
    recs = []

    def one(kw, name, user, want, key):
        o = call(datum, **kw)
        rec = dict(name=name, user=user, want=want, status="ok" if o.ok else o.err, key=key, unitsagree=True)
        if o.ok:
            d = o.value
            f = 0.01 if kw.get("units", "MKS").upper() == "CGS" else 1.0
            ob = call(observe, d, f)
            if not ob.ok:
                rec["status"] = ob.err; rec["msg"] = ob.msg
            else:
                rec.update(ob.value)
                other = datum(**dict(kw, units="MKS"))
                if f != 1.0:
                    rec["unitsagree"] = all(abs(d[k] - other[k] * FACT.get(k, 1)) <= 1e-9 * abs(d[k]) for k in ATTRS)
        recs.append(rec)

    for c in cases:
        for r in c["hist"]:
            nm = r["name"] if r["case"] == "upper" else r["name"].lower()
            un = r["units"] if r["case"] == "upper" else r["units"].lower()
            one(dict(ellipsoid=nm, units=un), r["name"], False, [], f"named:{nm}:{un}")
    # defined by the caller
    for a, rf, gm, om in [(6378137.0, 298.257223563, 3.986004418e14, 7.292115e-5), (6371000.0, 300.0, 3.986e14, 7.29e-5), (6378388.0, 297.0, None, None)]:
        kw = dict(a_axis=a, flat=1 / rf)
        if gm:
            kw.update(GM=gm, omega=om)
        one(kw, "", True, [q(a, 10), q(rf, 1e6), q(gm or 3.986004418e14, 1e-6), q(om or 7.292115e-5, 1e11)], f"user:{a}")
    # the named ellipsoid with another constant
    for nm in ("WGS84", "GRS80", "GRS67", "IERS"):
        d = call(datum, ellipsoid=nm, GM=3.9e14, omega=7.0e-5)
        ref = datum(ellipsoid=nm)
        recs.append(dict(recs[-1], key=f"override:{nm}", user=True, status="ok" if d.ok else d.err,
                         **(dict(observe(d.value), want=[q(ref.a_axis, 10), q(1 / ref.flat, 1e6), q(3.9e14, 1e-6), q(7e-5, 1e11)], gh1=q(ref.gamma_0(np.pi / 4), 1e6) and observe(d.value)["g0mid"] - 3085) if d.ok else {})))
    bad = call(datum, ellipsoid="WGS99")
    recs.append(dict(recs[0], key="unknown", status="ok" if not bad.ok else "accepted"))
    can = [dict(recs[0], b=recs[0]["b"] + 5), dict(recs[0], rf=recs[0]["rf"] + 5), dict(recs[0], k=0), dict(recs[0], J2=1)]
    ctx.validate("DatumTrace", recs, canaries=can)
    ctx.notes["exhaustive"] = True
