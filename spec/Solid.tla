-------------------------------- MODULE Solid --------------------------------
(* The tide of the solid earth, term by term, as the IERS Conventions (2010, ch. 7) *)
(* give it; the long-period equilibrium tide of Cartwright, Tayler and Edden.       *)
(* Geometry of a body as seen from a station at geocentric latitude phi, in 1e-4:   *)
(* sp cp (sine, cosine of phi), bz (sine of the declination), u and v (components   *)
(* of the direction in the plane of the equator, along and across (to the west of)  *)
(* the station's meridian), br bn be (radial, north, east).                         *)
EXTENDS Integers, Sequences
Mul(a, b) == (a * b) \div 10000
Sq(a) == Mul(a, a)
MulH(a, b) == (a \div 100000) * b + ((((a % 100000) \div 10) * (b \div 10)) \div 1000)     \* b in 1e-5
(* ---- in phase, degree two and three; F in the unit of the result *)
R2(F, g) == (3 * Mul(F, Sq(g.br)) - F) \div 2
N2(F, g) == 3 * Mul(Mul(F, g.br), g.bn)
E2(F, g) == 3 * Mul(Mul(F, g.br), g.be)
R3(F, g) == (5 * Mul(Mul(F, Sq(g.br)), g.br) - 3 * Mul(F, g.br)) \div 2
N3(F, g) == (3 * (5 * Mul(Mul(F, Sq(g.br)), g.bn) - Mul(F, g.bn))) \div 2
E3(F, g) == (3 * (5 * Mul(Mul(F, Sq(g.br)), g.be) - Mul(F, g.be))) \div 2
(* ---- out of phase, and of latitude; F in 1e-7 m, results in 1e-8 m *)
K(F, c) == (F * c) \div 1000          \* c in 1e-4
Cos2(g) == Sq(g.cp) - Sq(g.sp)
UV(g) == Mul(g.u, g.v)
U2V2(g) == Sq(g.u) - Sq(g.v)
DiurnalR(F, g) == 3 * Mul(Mul(Mul(K(F, 25), Mul(g.sp, g.cp)), g.bz), g.v)
DiurnalN(F, g) == 3 * Mul(Mul(Mul(K(F, 7), Cos2(g)), g.bz), g.v)
DiurnalE(F, g) == 3 * Mul(Mul(Mul(K(F, 7), g.sp), g.bz), g.u)
SemiR(F, g) == (3 * Mul(Mul(K(F, 22), Sq(g.cp)), UV(g))) \div 2
SemiN(F, g) == -(3 * Mul(Mul(K(F, 7), Mul(g.sp, g.cp)), UV(g)))
SemiE(F, g) == (3 * Mul(Mul(K(F, 7), g.cp), U2V2(g))) \div 2
LatDN(F, g) == -(3 * Mul(Mul(Mul(K(F, 12), Sq(g.sp)), g.bz), g.u))
LatDE(F, g) == 3 * Mul(Mul(Mul(K(F, 12), Mul(g.sp, Cos2(g))), g.bz), g.v)
LatSN(F, g) == -((3 * Mul(Mul(K(F, 24), Mul(g.sp, g.cp)), U2V2(g))) \div 2)
LatSE(F, g) == -(3 * Mul(Mul(K(F, 24), Mul(Sq(g.sp), g.cp)), UV(g)))
(* h2 and l2 at latitude: -0.0006 and +0.0002 times (1 - 3/2 cos^2) *)
W(g) == 10000 - (3 * Sq(g.cp)) \div 2
LatR(F, g) == -(R2(Mul(K(F, 6), W(g)), g))
LatN(F, g) == N2(Mul(K(F, 2), W(g)), g)
LatE(F, g) == E2(Mul(K(F, 2), W(g)), g)
SmallR(F, g) == DiurnalR(F, g) + SemiR(F, g) + LatR(F, g)
SmallN(F, g) == DiurnalN(F, g) + SemiN(F, g) + LatDN(F, g) + LatSN(F, g) + LatN(F, g)
SmallE(F, g) == DiurnalE(F, g) + SemiE(F, g) + LatDE(F, g) + LatSE(F, g) + LatE(F, g)
(* ---- step two: multiples of s h p N' ps (and tau in the diurnal band), amplitudes *)
(* (radial in phase, out of phase, transverse in phase, out of phase) in 1e-5 m      *)
Diurnal == <<
  <<-3, 0, 2, 0, 0, -1, 0, 0, 0>>,
  <<-3, 2, 0, 0, 0, -1, 0, 0, 0>>,
  <<-2, 0, 1, -1, 0, -2, 0, 0, 0>>,
  <<-2, 0, 1, 0, 0, -8, 0, -1, 1>>,
  <<-2, 2, -1, 0, 0, -2, 0, 0, 0>>,
  <<-1, 0, 0, -1, 0, -10, 0, 0, 0>>,
  <<-1, 0, 0, 0, 0, -51, 0, -2, 3>>,
  <<-1, 2, 0, 0, 0, 1, 0, 0, 0>>,
  <<0, -2, 1, 0, 0, 1, 0, 0, 0>>,
  <<0, 0, -1, 0, 0, 2, 0, 0, 0>>,
  <<0, 0, 1, 0, 0, 6, 0, 0, 0>>,
  <<0, 0, 1, 1, 0, 1, 0, 0, 0>>,
  <<0, 2, -1, 0, 0, 1, 0, 0, 0>>,
  <<1, -3, 0, 0, 1, -6, 0, 0, 0>>,
  <<1, -2, 0, -1, 0, 1, 0, 0, 0>>,
  <<1, -2, 0, 0, 0, -123, -7, 6, 1>>,
  <<1, -1, 0, 0, -1, 2, 0, 0, 0>>,
  <<1, -1, 0, 0, 1, 4, 0, 0, 0>>,
  <<1, 0, 0, -1, 0, -22, 1, 1, 0>>,
  <<1, 0, 0, 0, 0, 1200, -80, -67, -3>>,
  <<1, 0, 0, 1, 0, 173, -12, -10, 0>>,
  <<1, 0, 0, 2, 0, -4, 0, 0, 0>>,
  <<1, 1, 0, 0, -1, -50, -1, 3, 0>>,
  <<1, 1, 0, 0, 1, 1, 0, 0, 0>>,
  <<0, 1, 0, 1, -1, -1, 0, 0, 0>>,
  <<1, 2, -2, 0, 0, -1, 0, 0, 0>>,
  <<1, 2, 0, 0, 0, -11, 1, 1, 0>>,
  <<2, -2, 1, 0, 0, -1, 0, 0, 0>>,
  <<2, 0, -1, 0, 0, -2, 0, 0, 0>>,
  <<3, 0, 0, 0, 0, 0, 0, 0, 0>>,
  <<3, 0, 0, 1, 0, 0, 0, 0, 0>> >>
(* radial and transverse reversed in the long-period band of the table: R ip, N ip, R op, N op *)
LongPeriod == <<
  <<0, 0, 0, 1, 0, 47, 23, 16, 7>>,
  <<0, 2, 0, 0, 0, -20, -12, -11, -5>>,
  <<1, 0, -1, 0, 0, -11, -8, -9, -4>>,
  <<2, 0, 0, 0, 0, -13, -11, -15, -7>>,
  <<2, 0, 0, 1, 0, -5, -5, -6, -3>> >>
(* sines and cosines in 1e-5; results in 1e-8 m *)
RECURSIVE Acc(_, _, _, _, _)
Acc(t, a, b, s, c) == IF t = <<>> THEN 0       \* sum of t[a] s + t[b] c, 1e-10 m
  ELSE Head(t)[a] * Head(s) + (IF b = 0 THEN 0 ELSE IF b > 0 THEN Head(t)[b] * Head(c) ELSE -(Head(t)[-b] * Head(c))) + Acc(Tail(t), a, b, Tail(s), Tail(c))
D100(x) == (x + 50) \div 100
(* h: s2 = sin 2phi, c2 = cos 2phi, p2 = (3 sin^2 phi - 1)/2, sp (1e-5) *)
StepR(h, d, l) == MulH(D100(Acc(Diurnal, 6, 7, d.s, d.c)), h.s2) + MulH(D100(Acc(LongPeriod, 6, 8, l.c, l.s)), h.p2)
StepN(h, d, l) == MulH(D100(Acc(Diurnal, 8, 9, d.s, d.c)), h.c2) + MulH(D100(Acc(LongPeriod, 7, 9, l.c, l.s)), h.s2)
StepE(h, d, l) == MulH(D100(Acc(Diurnal, 8, -9, d.c, d.s)), h.sp)
(* ---- equilibrium long-period tide: multiples of s h p N' ps, potential in 1e-6 m *)
Equilibrium == <<
  <<"node", 0, 0, 0, 1, 0, 27929>>,
  <<"sa", 0, 1, 0, 0, -1, -4922>>,
  <<"ssa", 0, 2, 0, 0, 0, -30988>>,
  <<"msm", 1, -2, 1, 0, 0, -6728>>,
  <<"065.445", 1, 0, -1, -1, 0, 2310>>,
  <<"mm", 1, 0, -1, 0, 0, -35184>>,
  <<"065.465", 1, 0, -1, 1, 0, 2280>>,
  <<"msf", 2, -2, 0, 0, 0, -5837>>,
  <<"075.355", 2, 0, -2, 0, 0, -2880>>,
  <<"mf", 2, 0, 0, 0, 0, -66607>>,
  <<"mf+", 2, 0, 0, 1, 0, -27630>>,
  <<"075.575", 2, 0, 0, 2, 0, -2580>>,
  <<"mst", 3, -2, 1, 0, 0, -2422>>,
  <<"mt", 3, 0, -1, 0, 0, -12753>>,
  <<"085.465", 3, 0, -1, 1, 0, -5280>> >>
(* 0.437133 = (1 + k2 - h2) sqrt(5/4pi) with k2 = 0.299, h2 = 0.606; p2 and c in 1e-5, result 1e-8 m *)
Lpe(i, p2, c) == LET a == MulH(Equilibrium[i][7] * 100, 43713) IN MulH(MulH(a, p2), c)
=============================================================================
