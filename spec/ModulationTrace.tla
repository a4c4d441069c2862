---------------------------- MODULE ModulationTrace ----------------------------
(* Factors and phases of the implementation against the published forms.  A point   *)
(* has the basis b (see Modulation), factor f (1e-5) and its square f2 (1e-4), phase *)
(* u (1e-5 rad), f sin u and f cos u (1e-5), sine and cosine of u (su, cu) and of     *)
(* a xi + b nu - u (sw, cw) (1e-4).                                                   *)
EXTENDS Modulation, TraceLib
VARIABLE l
OfRow(r) == CASE r.kind = "m1" -> M1Table[r.m1]
             [] r.kind = "minor" -> MinorForm(r.cl, r.m)
             [] OTHER -> FormOf(r.cl, r.c)
Square(fm, b) == (Sq(Sines(fm.t, b) \div 10) + Sq(Cosines(fm.c0, fm.t, b) \div 10)) \div 10000
(* angle with tangent n over d, from its sine and cosine *)
SameAngle(s, c, n, d, tol) == LET x == (s * (d \div 10)) \div 1000  y == (c * (n \div 10)) \div 1000 IN Abs(x - y) <= 2 + (tol * (Abs(n) + Abs(d))) \div 10000
Factor(fm, p) ==
  CASE fm.k = "series" -> Near(p.fs, Sines(fm.t, p.b), 15) /\ Near(p.fc, Cosines(fm.c0, fm.t, p.b), 15)
    [] fm.k = "sep" -> Near(p.f, Cosines(fm.c0, fm.t, p.b), 12)
    [] fm.k \in {"mix", "two", "perth2"} -> Near(p.f2, Square(fm, p.b), 5)
    [] fm.k = "sch" -> Near(p.f2, SchF2(fm.n, p.b), IF fm.n = "oo1" THEN 50 ELSE IF fm.n \in {"k2", "mf", "eta2"} THEN 36 ELSE IF fm.n = "l2" THEN 70 ELSE IF fm.n = "m3" THEN 24 ELSE 18)
Phase(fm, p) ==
  CASE fm.k = "series" -> p.f > 0 /\ (p.fs > 40 => p.u > 0) /\ (p.fs < -40 => p.u < 0)
    [] fm.k = "sep" -> Near(p.u, Rad(Degrees(fm.t, p.b)), 20)
    [] fm.k = "mix" -> Near(p.u, Rad(Degrees(fm.d, p.b)), 20)
    [] fm.k = "two" -> SameAngle(p.su, p.cu, Sines(fm.s, p.b), Cosines(fm.e0, fm.s, p.b), 4) /\ p.cu > 0
    [] fm.k = "perth2" -> SameAngle(p.su, p.cu, Sines(fm.t, p.b), 100000 + (18900 * p.b.c[1]) \div 10000 - (580 * p.b.s[2]) \div 10000, 4) /\ p.cu > 0
    [] fm.k = "sch" -> LET w == SchW(fm.n, p.b) IN
         IF w[1] = 0 /\ w[2] = 10000 THEN Abs(p.sw) <= 3 /\ p.cw > 0
         ELSE SameAngle(p.sw, p.cw, 10 * w[1], 10 * w[2], IF fm.n = "l2" THEN 40 ELSE 12) /\ p.cw > 0
Argument(r, p) == LET d == Minor[r.m][2] IN
   NearCirc(p.G, SumSeq([i \in 1 .. 7 |-> d[i] * p.args[i]]), 3600000, 40)
Failing(r) ==
  IF r.status # "ok" THEN {"CallCompletes"}
  ELSE LET fm == OfRow(r)
           (* L2 of FES with the perigee's degrees taken for radians: a finding of its own *)
           D(p) == [p EXCEPT !.b.s2q = p.b.s2d, !.b.c2q = p.b.c2d]
           degrees == fm.k = "sch" /\ fm.n = "l2" /\ Len(r.pts) > 0
                      /\ (\A i \in 1 .. Len(r.pts) : Factor(fm, D(r.pts[i])) /\ Phase(fm, D(r.pts[i])))
                      /\ ~(\A i \in 1 .. Len(r.pts) : Factor(fm, r.pts[i]) /\ Phase(fm, r.pts[i]))
       IN Violated({
     <<"PerigeeInRadians", ~degrees>>,
     <<"PublishedFactor", degrees \/ \A i \in 1 .. Len(r.pts) : Factor(fm, r.pts[i])>>,
     <<"PublishedPhase", degrees \/ \A i \in 1 .. Len(r.pts) : Phase(fm, r.pts[i])>>,
     <<"DoodsonArgument", r.kind = "minor" => \A i \in 1 .. Len(r.pts) : Argument(r, r.pts[i])>> })
TraceInit == l = 1
TraceNext == l <= Len(Trace) /\ Report(l, Failing(Trace[l])) /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_l
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
