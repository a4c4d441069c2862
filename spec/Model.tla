-------------------------------- MODULE Model --------------------------------
(* A tide model is a lattice of nodes carrying integer complex constituents;  *)
(* what a query must answer is defined here, independent of the file format,  *)
(* of the reading path (direct extraction, or read once and interpolate), of  *)
(* cropping, of the longitude convention and of the other points of the call. *)
(*   m.W, m.H      nodes;  m.per  quarter cells in 360 degrees (0: projected) *)
(*   m.glob        periodic in x                                              *)
(*   m.wet[j][i]   wet nodes;  m.cwet[c][j][i] valid in the file of c         *)
(*   m.re, m.im [c][j][i] values;  m.dep2[j][i] twice the depth;  m.vel       *)
(*                 values are transports asked for as velocities              *)
(*   m.lon, m.lat  position of the first node and m.qd, m.qy quarter cells,   *)
(*                 all in units of 2.5 degrees (projected models: of the      *)
(*                 smaller quarter cell)                                      *)
(* Queries are in quarter cells from the first node: (qx, qy).                *)
EXTENDS Integers, Sequences, FiniteSets
Sin25 == << 0, 436, 872, 1305, 1736, 2164, 2588, 3007, 3420, 3827, 4226, 4617, 5000, 5373, 5736, 6088, 6428, 6756, 7071, 7373, 7660, 7934, 8192, 8434, 8660, 8870, 9063, 9239, 9397, 9537, 9659, 9763, 9848, 9914, 9962, 9990, 10000, 9990, 9962, 9914, 9848, 9763, 9659, 9537, 9397, 9239, 9063, 8870, 8660, 8434, 8192, 7934, 7660, 7373, 7071, 6756, 6428, 6088, 5736, 5373, 5000, 4617, 4226, 3827, 3420, 3007, 2588, 2164, 1736, 1305, 872, 436, 0, -436, -872, -1305, -1736, -2164, -2588, -3007, -3420, -3827, -4226, -4617, -5000, -5373, -5736, -6088, -6428, -6756, -7071, -7373, -7660, -7934, -8192, -8434, -8660, -8870, -9063, -9239, -9397, -9537, -9659, -9763, -9848, -9914, -9962, -9990, -10000, -9990, -9962, -9914, -9848, -9763, -9659, -9537, -9397, -9239, -9063, -8870, -8660, -8434, -8192, -7934, -7660, -7373, -7071, -6756, -6428, -6088, -5736, -5373, -5000, -4617, -4226, -3827, -3420, -3007, -2588, -2164, -1736, -1305, -872, -436 >>
SinQ(k) == Sin25[(k % 144) + 1]
CosQ(k) == SinQ(k + 36)
SMin(S) == CHOOSE x \in S : \A y \in S : x <= y
-----------------------------------------------------------------------------
(* representatives of a longitude in the grid, in quarter cells *)
Reps(m, qx) == IF m.glob THEN {qx % (4 * m.W)}
               ELSE IF m.per = 0 THEN {qx} \cap (0 .. 4 * (m.W - 1))
               ELSE {x \in {qx % m.per} : x <= 4 * (m.W - 1)}
InsideY(m, qy) == qy >= 0 /\ qy <= 4 * (m.H - 1)
Inside(m, qx, qy) == InsideY(m, qy) /\ Reps(m, qx) # {}
(* nodes that a position needs along one axis, with weights in quarters *)
AxisX(m, x) == LET i == x \div 4  f == x % 4
               IN {<<(i % m.W) + 1, 4 - f>>} \cup (IF f = 0 THEN {} ELSE {<<((i + 1) % m.W) + 1, f>>})
AxisY(y) == LET j == y \div 4  f == y % 4
            IN {<<j + 1, 4 - f>>} \cup (IF f = 0 THEN {} ELSE {<<j + 2, f>>})
Corners(m, qx, qy) == LET x == CHOOSE r \in Reps(m, qx) : TRUE
   IN {<<b[1], a[1], a[2] * b[2]>> : a \in AxisX(m, x), b \in AxisY(qy)}
Ok(m, c, k) == m.wet[k[1]][k[2]] /\ m.cwet[c][k[1]][k[2]]
RECURSIVE WSum(_, _)
WSum(f(_), S) == IF S = {} THEN 0 ELSE LET k == CHOOSE k \in S : TRUE IN k[3] * f(k) + WSum(f, S \ {k})
(* outcome: value nre/den, nim/den (den = 0: invalid), from the nodes used *)
Invalid == [den |-> 0, nre |-> 0, nim |-> 0, dd |-> 0]
Mix(m, c, S) == [den |-> WSum(LAMBDA k : 1, S), nre |-> WSum(LAMBDA k : m.re[c][k[1]][k[2]], S),
                 nim |-> WSum(LAMBDA k : m.im[c][k[1]][k[2]], S), dd |-> WSum(LAMBDA k : m.dep2[k[1]][k[2]], S)]
NearAxis(S) == {k \in S : \A o \in S : k[2] >= o[2]}
NearestNodes(m, qx, qy) == LET x == CHOOSE r \in Reps(m, qx) : TRUE
   IN {<<b[1], a[1], 16>> : a \in NearAxis(AxisX(m, x)), b \in NearAxis(AxisY(qy))}
(* interpolation, as a set of acceptable outcomes (ties of nearest) *)
Interp(m, c, meth, qx, qy) ==
  IF ~Inside(m, qx, qy) THEN {Invalid}
  ELSE LET S == Corners(m, qx, qy)  V == {k \in S : Ok(m, c, k)} IN
       CASE meth = "bilinear" -> {IF V = {} THEN Invalid ELSE Mix(m, c, V)}
         [] meth \in {"spline", "linear"} -> {IF V # S THEN Invalid ELSE Mix(m, c, S)}
         [] meth = "nearest" -> {IF Ok(m, c, k) THEN Mix(m, c, {k}) ELSE Invalid : k \in NearestNodes(m, qx, qy)}
-----------------------------------------------------------------------------
(* distances: chords of the sphere of radius 10^4, or quarter cells in the plane *)
XYZ(lon, lat) == <<(CosQ(lat) * CosQ(lon)) \div 10000, (CosQ(lat) * SinQ(lon)) \div 10000, SinQ(lat)>>
Sq(x) == x * x
Dist2(m, qx, qy, k) ==
  IF m.per = 0 THEN Sq(m.qd * (4 * (k[2] - 1) - qx)) + Sq(m.qy * (4 * (k[1] - 1) - qy))
  ELSE LET a == XYZ(m.lon + qx * m.qd, m.lat + qy * m.qy)
           b == XYZ(m.lon + 4 * (k[2] - 1) * m.qd, m.lat + 4 * (k[1] - 1) * m.qy)
       IN Sq(a[1] - b[1]) + Sq(a[2] - b[2]) + Sq(a[3] - b[3])
OkNodes(m, c) == {k \in {<<j, i, 16>> : j \in 1 .. m.H, i \in 1 .. m.W} : Ok(m, c, k)}
(* nearest up to the resolution of the distances: 2 percent on the sphere (its     *)
(* flattening is not modelled), exact in the plane                                  *)
Slack(m, d) == IF m.per = 0 THEN d ELSE d + (d \div 50) + 20
(* cut: the cutoff in units of distance, -1 unlimited *)
Extrap(m, c, qx, qy, cut) ==
  LET N == OkNodes(m, c) IN
  IF N = {} THEN {Invalid}
  ELSE LET dm == SMin({Dist2(m, qx, qy, k) : k \in N})
           near == {Mix(m, c, {k}) : k \in {k \in N : Dist2(m, qx, qy, k) <= Slack(m, dm)}}
           c2 == Sq(cut)
       IN IF cut < 0 THEN near
          ELSE IF dm < c2 - (c2 \div 33) THEN near
          ELSE IF dm > c2 + (c2 \div 33) THEN {Invalid}
          ELSE near \cup {Invalid}
NearestNodesIf(m, qx, qy) == IF Inside(m, qx, qy) THEN NearestNodes(m, qx, qy) ELSE {}
(* what a query may answer *)
Outcomes(m, c, meth, qx, qy, extrap, cut) ==
  LET I == Interp(m, c, meth, qx, qy) IN
  IF ~extrap \/ ~Inside(m, qx, qy) THEN I
  ELSE UNION {IF o.den > 0 THEN {o} ELSE Extrap(m, c, qx, qy, cut) : o \in I}
=============================================================================
