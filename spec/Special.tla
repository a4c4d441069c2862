------------------------------- MODULE Special -------------------------------
(* Special functions with exact integer values on lattices.                     *)
(*  - Legendre functions at cos = c/5, sin = s/5 (3-4-5 triangles):              *)
(*    p(l, m) = 10^l P_lm without the Condon-Shortley phase                      *)
(*  - rotations by quarter turns and by the 3-4-5 angle: 5 cos, 5 sin            *)
(*  - aliased frequencies by folding, polynomials, angles in one turn            *)
(*  - the resonance of the body tide Love numbers at the free core nutation      *)
EXTENDS Integers, Sequences
Pts == << <<5, 0>>, <<4, 3>>, <<3, 4>>, <<0, 5>>, <<-3, 4>>, <<-4, 3>>, <<-5, 0>> >>
RECURSIVE Pow(_, _)
Pow(b, k) == IF k = 0 THEN 1 ELSE b * Pow(b, k - 1)
RECURSIVE Fact(_)
Fact(k) == IF k <= 0 THEN 1 ELSE k * Fact(k - 1)
Sgnm(m) == IF m % 2 = 0 THEN 1 ELSE -1
RECURSIVE P(_, _, _)
P(l, m, x) == IF l < m THEN 0
   ELSE IF l = m THEN (IF m = 0 THEN 1 ELSE (2 * m - 1) * (2 * x[2]) * P(m - 1, m - 1, x))
   ELSE ((2 * l - 1) * (2 * x[1]) * P(l - 1, m, x) - (l + m - 1) * 100 * P(l - 2, m, x)) \div (l - m)
(* 1e6 P_lm^2, l <= 3 *)
Sq6(l, m, x) == P(l, m, x) * P(l, m, x) * (1000000 \div Pow(100, l))
Delta(m) == IF m = 0 THEN 1 ELSE 2
MulDiv(a, n, d) == (a \div d) * n + ((a % d) * n) \div d
(* 1e6 times the square of the fully normalized function, (2l+1)(2-d)(l-m)!/(l+m)! P^2 *)
NormSq6(l, m, x) == MulDiv(Sq6(l, m, x), Delta(m) * (2 * l + 1) * Fact(l - m), Fact(l + m))
(* 1e6 * 4 pi * |Y_lm|^2 *)
HarmSq6(l, m, x) == MulDiv(Sq6(l, m, x), (2 * l + 1) * Fact(l - m), Fact(l + m))
(* sign of the real and the imaginary part of Y at longitude 90 j degrees *)
Cos4(k) == <<1, 0, -1, 0>>[(k % 4) + 1]
Sin4(k) == <<0, 1, 0, -1>>[(k % 4) + 1]
SgnOf(v) == IF v < 0 THEN -1 ELSE IF v > 0 THEN 1 ELSE 0
HarmSign(l, m, x, j) == LET g == Sgnm(m) * SgnOf(P(l, m, x)) IN <<g * Cos4(m * j), g * Sin4(m * j)>>
(* ---- rotations: coordinates of a fixed direction in axes turned by an angle *)
Ang == [q0 |-> <<5, 0>>, q1 |-> <<0, 5>>, q2 |-> <<-5, 0>>, q3 |-> <<0, -5>>, a |-> <<4, 3>>, b |-> <<4, -3>>, c |-> <<-3, 4>>]
R(ax, g) == LET c == Ang[g][1] s == Ang[g][2] IN
  CASE ax = "x" -> << <<5, 0, 0>>, <<0, c, s>>, <<0, -s, c>> >>
    [] ax = "y" -> << <<c, 0, -s>>, <<0, 5, 0>>, <<s, 0, c>> >>
    [] OTHER    -> << <<c, s, 0>>, <<-s, c, 0>>, <<0, 0, 5>> >>
I3 == << <<1, 0, 0>>, <<0, 1, 0>>, <<0, 0, 1>> >>
Mul(a, b) == [i \in 1 .. 3 |-> [j \in 1 .. 3 |-> a[i][1] * b[1][j] + a[i][2] * b[2][j] + a[i][3] * b[3][j]]]
RECURSIVE Word(_)
Word(w) == IF w = <<>> THEN I3 ELSE Mul(R(w[Len(w)][1], w[Len(w)][2]), Word(SubSeq(w, 1, Len(w) - 1)))
Det(m) == m[1][1] * (m[2][2] * m[3][3] - m[2][3] * m[3][2]) - m[1][2] * (m[2][1] * m[3][3] - m[2][3] * m[3][1])
        + m[1][3] * (m[2][1] * m[3][2] - m[2][2] * m[3][1])
(* ---- aliasing *)
Fold(f, fs) == LET r == f % fs IN IF 2 * r > fs THEN fs - r ELSE r
(* published aliasing periods, hundredths of a day *)
Alias == << [rep |-> "9.9156", t |-> [m2 |-> 6211, s2 |-> 5874, n2 |-> 4953, k2 |-> 8660, k1 |-> 17319, o1 |-> 4571, p1 |-> 8889, q1 |-> 6936]],
            [rep |-> "35.0", t |-> [m2 |-> 9449, n2 |-> 9739, k2 |-> 18262, k1 |-> 36525, o1 |-> 7507, p1 |-> 36524, q1 |-> 13281]],
            [rep |-> "17.0505", t |-> [m2 |-> 31711, s2 |-> 16881, n2 |-> 5207, k2 |-> 8772, k1 |-> 17545, o1 |-> 11295, q1 |-> 7405]] >>
(* ---- Love numbers: free core nutation (1e-7 of the rotation rate), values at   *)
(* the frequency of O1 and strength of the resonance (1e-8)                        *)
Y(f, h0, h1, k0, k1, l0, l1) == [fcn |-> f, v |-> << <<h0, h1>>, <<k0, k1>>, <<l0, l1>> >>]
Love == [ m1066A |-> Y(10021714, 60300000, -246000, 29800000, -123000, 8420000, 7810),
          PEMC |-> Y(10021771, 60200000, -246000, 29800000, -124000, 8390000, 7690),
          C2 |-> Y(10021844, 60200000, -245000, 29800000, -123000, 8460000, 7580),
          PREM |-> Y(10023214, 59940000, -253200, 29620000, -127100, 8378000, 7932) ]
Semidiurnal == <<60900000, 30200000, 8520000>>
LongPeriod == <<60600000, 29900000, 8400000>>
RECURSIVE Horner(_, _)
Horner(c, t) == IF c = <<>> THEN 0 ELSE Head(c) + t * Horner(Tail(c), t)
=============================================================================
