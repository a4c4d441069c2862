---------------------------- MODULE ModulationMC ----------------------------
(* The node goes once round its cycle, in steps of 15 degrees, for each constituent, *)
(* class and longitude of the perigee.  The published forms are checked against each *)
(* other and against what modulation must be: the triangle of the lunar orbit closes, *)
(* factors stay near one and average to it, reversing node and perigee conjugates     *)
(* the modulation, and the conventions agree.                                         *)
EXTENDS Modulation, ModulationTable, TLC, Json, IOUtils, CSV
CONSTANTS Ps, EmitOn
VARIABLES cl, c, j, k, sum, ph,
  form, other,   \* its form in its own class and in class G (if any)
  here, back     \* the basis here and at the reversed node and perigee
vars == <<cl, c, j, k, sum, ph, form, other, here, back>>
Abs(x) == IF x < 0 THEN -x ELSE x
Basis(n, p) ==
  LET r == NodeT[(n % 24) + 1]
      h == <<n, 2 * n, 2 * p, 2 * p - n, p, p - n, 2 * (n - p), 3 * n>>
  IN [s |-> [x \in 1 .. 8 |-> Sn(h[x])], c |-> [x \in 1 .. 8 |-> Cs(h[x])],
      sI |-> r[1], cI |-> r[2], sh |-> r[3], ch |-> r[4], xi |-> r[5], nu |-> r[6],
      snu |-> r[9], cnu |-> r[10], s2nu |-> r[11], c2nu |-> r[12],
      s2q |-> (Sn(2 * p) * r[8] - Cs(2 * p) * r[7]) \div 10000, c2q |-> (Cs(2 * p) * r[8] + Sn(2 * p) * r[7]) \div 10000]
(* square of the factor (1e-4) and tangent of the phase as <<numerator, denominator>> (1e-5) *)
F2(fm, b) ==
  CASE fm.k = "series" -> (Sq(Sines(fm.t, b) \div 10) + Sq(Cosines(fm.c0, fm.t, b) \div 10)) \div 10000
    [] fm.k = "two" -> (Sq(Sines(fm.t, b) \div 10) + Sq(Cosines(fm.c0, fm.t, b) \div 10)) \div 10000
    [] fm.k = "mix" -> (Sq(Sines(fm.t, b) \div 10) + Sq(Cosines(fm.c0, fm.t, b) \div 10)) \div 10000
    [] fm.k = "sep" -> Sq(Cosines(fm.c0, fm.t, b) \div 10) \div 10000
    [] fm.k = "sch" -> SchF2(fm.n, b)
ArcTan(n, d) == LET x == (n * 10000) \div d IN 10 * (x - ((((x * x) \div 10000) * x) \div 30000))   \* 1e-5 rad
U(fm, b) ==
  CASE fm.k = "series" -> ArcTan(Sines(fm.t, b), Cosines(fm.c0, fm.t, b))
    [] fm.k = "two" -> ArcTan(Sines(fm.s, b), Cosines(fm.e0, fm.s, b))
    [] fm.k = "mix" -> Rad(Degrees(fm.d, b))
    [] fm.k = "sep" -> Rad(Degrees(fm.t, b))
    [] fm.k = "sch" -> fm.a * b.xi + fm.b * b.nu - ArcTan(SchW(fm.n, b)[1], SchW(fm.n, b)[2])
Classes == {O, F, P, G}
Init == /\ cl \in Classes /\ c \in {n \in Names : Known(cl, n)} /\ j \in Ps /\ k = 0 /\ sum = 0 /\ ph = 0
        /\ form = FormOf(cl, c) /\ other = (IF Known(G, c) THEN FormOf(G, c) ELSE FormOf(cl, c))
        /\ here = Basis(0, j) /\ back = Basis(24, 48 - j)
(* the perigee moves too: two full turns *)
Turn == /\ k < 24 /\ k' = k + 1 /\ UNCHANGED <<cl, c, j, form, other>>
        /\ here' = Basis(k + 1, j + 2 * (k + 1)) /\ back' = Basis(23 - k, 72 - j - 2 * (k + 1))
        /\ sum' = sum + F2(form, here) /\ ph' = ph + U(form, here)
Combo(f) == IF f.k = "sch" THEN <<f.a, f.b>> ELSE <<0, 0>>
Emit == /\ k = 24 /\ k' = 25 /\ UNCHANGED <<cl, c, j, sum, ph, form, other, here, back>>
        /\ (EmitOn => CSVWrite("%1$s", <<ToJson([cl |-> cl, c |-> c, ab |-> Combo(form),
            minors |-> IF c = "m2" THEN [i \in 1 .. Len(Minor) |-> Combo(MinorForm(cl, i))] ELSE <<>>])>>, IOEnv.OUT))
Next == Turn \/ Emit
Spec == Init /\ [][Next]_vars
(* ---- properties *)
Triangle == LET r == NodeT[(k % 24) + 1] IN
  /\ Abs(Sq(r[1]) + Sq(r[2]) - 100000000) <= 20000 /\ Abs(Sq(r[3]) + Sq(r[4]) - 100000000) <= 20000
  /\ Abs(2 * r[3] * r[4] - 10000 * r[1]) <= 20000
  /\ Abs(r[2] - (9137 - (357 * Cs(k)) \div 10000)) <= 2
  /\ Abs(r[1] * r[9] - 897 * Sn(k)) <= 20000                          \* sine rule: sin I sin nu = sin i sin N
  /\ Abs(Sq(r[9]) + Sq(r[10]) - 100000000) <= 20000 /\ Abs(r[11] * 10000 - 2 * r[9] * r[10]) <= 20000
  /\ Abs(r[6] - r[5]) <= 2200 /\ (r[5] = 0 <=> r[6] = 0)
Wide == {"oo1", "ups1", "delta2", "mst"}
InRange == LET f == F2(form, here) IN
  IF c \in Wide THEN f >= 0 /\ f <= 53000 ELSE IF c \in {"l3", "q1'", "j1'", "l2b", "eta2", "zeta2"} THEN f >= 1900 /\ f <= 25000 ELSE f >= 3000 /\ f <= 23000
Conjugate ==
   /\ Abs(F2(form, here) - F2(form, back)) <= 12
   /\ c \notin Wide => Abs(U(form, here) + U(form, back)) <= 80
(* the mean square over a cycle is one plus the power of the side lines: never below one *)
Average == k = 25 => /\ sum \div 24 >= 9900 /\ sum \div 24 <= (IF c \in Wide THEN 17000 ELSE 12600)
                     /\ c \notin Wide \cup {"l3", "delta2"} => Abs(ph \div 24) <= 4000
(* each convention agrees with the series of the others, but for the small tides that some leave out *)
LeftOut == {<<O, "msf">>, <<O, "tau1">>, <<O, "theta1">>, <<O, "lambda2">>, <<O, "mt">>}
Tol2 == IF c \in {"oo1", "ups1"} THEN 6000 ELSE IF c \in {"mm", "msm", "mf", "msqm", "msp", "mq"} THEN 1500
        ELSE IF c \in {"mtm", "mt", "chi1", "eta2", "zeta2"} THEN 900 ELSE IF c \in {"l2", "sl4"} THEN 800 ELSE IF c = "msf" THEN 250 ELSE 260
TolU == IF c \in {"mm", "msm"} THEN 9000 ELSE IF c \in {"mf", "msqm", "msp", "mq", "eta2", "zeta2"} THEN 8000 ELSE IF c = "msf" THEN 18000
        ELSE IF c \in {"mtm", "mt", "chi1", "l2", "sl4"} THEN 4000 ELSE 1500
Agree == <<cl, c>> \notin LeftOut =>
   /\ Abs(F2(form, here) - F2(other, here)) <= Tol2
   /\ c \notin Wide => Abs(U(form, here) - U(other, here)) <= TolU
=============================================================================
