------------------------------ MODULE DatumTrace ------------------------------
EXTENDS Datum, TraceLib
VARIABLE l
Rel(x, y) == Near(x, y, 1)
Clauses(r) ==
  Violated({
   <<"PublishedSize", r.user \/ Rel(r.a, Published[r.name].a)>>,
   <<"PublishedFlattening", r.user \/ Rel(r.rf, Published[r.name].rf)>>,
   <<"PublishedGM", r.user \/ Rel(r.gm, Published[r.name].gm)>>,
   <<"RotationRate", r.user \/ Rel(r.om, Published[r.name].om)>>,
   <<"UserValues", r.user => r.a = r.want[1] /\ r.rf = r.want[2] /\ r.gm = r.want[3] /\ r.om = r.want[4]>>,
   (* identities that hold on every ellipsoid *)
   <<"PolarAxis", Near(r.a - r.b, r.af, 1) /\ r.ratio = r.bova>>,
   <<"Eccentricities", /\ Near(r.e1sq, r.c2a2, 2) /\ Near(r.e2sq, r.c2b2, 2)
                       /\ Near(r.c2, r.a2b2, 2)>>,
   <<"PolarRadius", Rel(r.rp, r.a2ob)>>,
   <<"MeanRadius", Near(r.r3, r.a2b, 2)>>,
   <<"VolumeArea", Near(r.vol, r.r3, 4) /\ r.area >= r.rsq /\ Near(r.area, r.rsq, 300000)>>,
   <<"DynamicOblateness", Near(r.J2, -r.c20s5, 2)>>,
   <<"Clairaut", Near(r.fstar + r.f8, r.clair, 40)>>,
   <<"GravityLimits", Near(r.g0pole, r.gb, 5) /\ Rel(r.g0eq, r.ga) /\ Rel(r.gh0, r.g0mid)>>,
   <<"GravityFallsWithHeight", Near(r.g0mid - r.gh1, 3085, 10)>>,
   \* (2-215): at heights a/n, squared cosine of the colatitude c/2
   <<"FreeAir", \A k \in 1 .. Len(r.up) : LET u == r.up[k] IN
        Near(u.v, 100000000 - (2 * (100000000 + r.f8 + (r.m \div 100) - r.f8 * u.c)) \div u.n + 300000000 \div (u.n * u.n), 4)>>,
   <<"Published", (~r.user /\ r.name \in DOMAIN Derived) =>
       LET d == Derived[r.name] IN
         /\ Rel(r.b, d.b) /\ Rel(r.c, d.c) /\ Rel(r.r, d.r) /\ Rel(r.rp, d.rp)
         /\ Near(r.e1sq, d.e1, 2) /\ Near(r.e2sq, d.e2, 2) /\ Near(r.m, d.m, 2) /\ Near(r.J2, d.J2, 2)
         /\ Near(r.ga, d.ga, 1) /\ Near(r.gb, d.gb, 1) /\ Near(r.k, d.k, 10) /\ Rel(r.u0, d.u0)>>,
   <<"UnitsAgree", r.unitsagree>> })
Failing(r) == IF r.status # "ok" THEN {"CallCompletes"} ELSE Clauses(r)
TraceInit == l = 1
TraceNext == l <= Len(Trace) /\ Report(l, Failing(Trace[l])) /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_l
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
