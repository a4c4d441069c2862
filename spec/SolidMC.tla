------------------------------- MODULE SolidMC -------------------------------
(* A body at a fixed declination goes round the sky of a station, 15 degrees at a    *)
(* time.  Over a turn every diurnal and semidiurnal term sums to nothing, half a turn *)
(* reverses the diurnal and keeps the semidiurnal, the mirror of station and body     *)
(* mirrors the tide, the opposite body raises the same tide of degree two and the     *)
(* reverse of degree three, and a body overhead moves the station along the plumb     *)
(* line by h.                                                                        *)
EXTENDS Solid, ModulationTable, TLC, Json, IOUtils, CSV
CONSTANTS Lats, Decs, EmitOn
VARIABLES la, de, k, sum
vars == <<la, de, k, sum>>
F == 3580000
F2s == 35800
Abs(x) == IF x < 0 THEN -x ELSE x
Geo(a, d, h) ==
  LET sp == Sn(a + 24) cp == Cs(a + 24) bz == Sn(d + 24)
      u == Mul(Cs(d + 24), Cs(h)) v == -(Mul(Cs(d + 24), Sn(h)))
  IN [sp |-> sp, cp |-> cp, bz |-> bz, u |-> u, v |-> v,
      br |-> Mul(sp, bz) + Mul(cp, u), bn |-> Mul(cp, bz) - Mul(sp, u), be |-> -v]
Parts(g) == <<DiurnalR(F, g), DiurnalN(F, g), DiurnalE(F, g), SemiR(F, g), SemiN(F, g), SemiE(F, g),
              LatDN(F, g), LatDE(F, g), LatSN(F, g), LatSE(F, g)>>
Zero == [i \in 1 .. 10 |-> 0]
Init == la \in Lats /\ de \in Decs /\ k = 0 /\ sum = Zero
G == Geo(la - 6, de - 6, k)
Turn == /\ k < 24 /\ k' = k + 1 /\ UNCHANGED <<la, de>>
        /\ sum' = [i \in 1 .. 10 |-> sum[i] + Parts(G)[i]]
Emit == /\ k = 24 /\ k' = 25 /\ UNCHANGED <<la, de, sum>>
        /\ (EmitOn => CSVWrite("%1$s", <<ToJson([la |-> la - 6, de |-> de - 6,
              diurnal |-> [i \in 1 .. Len(Diurnal) |-> SubSeq(Diurnal[i], 1, 5)],
              long |-> [i \in 1 .. Len(LongPeriod) |-> SubSeq(LongPeriod[i], 1, 5)],
              lpe |-> [i \in 1 .. Len(Equilibrium) |-> SubSeq(Equilibrium[i], 1, 6)]])>>, IOEnv.OUT))
Next == Turn \/ Emit
Spec == Init /\ [][Next]_vars
(* ---- properties (units of 1e-8 m) *)
Tol == 60
TurnSums == k = 24 => \A i \in 1 .. 10 : Abs(sum[i]) <= 24 * 12
HalfTurn == LET p == Parts(G) q == Parts(Geo(la - 6, de - 6, k + 12)) IN
  /\ \A i \in {1, 2, 3, 7, 8} : Abs(p[i] + q[i]) <= Tol
  /\ \A i \in {4, 5, 6, 9, 10} : Abs(p[i] - q[i]) <= Tol
Mirrored == LET m == Geo(-(la - 6), -(de - 6), k) IN
  /\ Abs(SmallR(F, G) - SmallR(F, m)) <= Tol /\ Abs(SmallN(F, G) + SmallN(F, m)) <= Tol /\ Abs(SmallE(F, G) - SmallE(F, m)) <= Tol
  /\ Abs(R2(F2s, G) - R2(F2s, m)) <= 60 /\ Abs(R3(F2s, G) - R3(F2s, m)) <= 100
Opposite == LET o == Geo(la - 6, -(de - 6), k + 12) IN
  /\ Abs(SmallR(F, G) - SmallR(F, o)) <= Tol /\ Abs(SmallN(F, G) - SmallN(F, o)) <= Tol /\ Abs(SmallE(F, G) - SmallE(F, o)) <= Tol
  /\ Abs(R2(F2s, G) - R2(F2s, o)) <= 60 /\ Abs(N2(F2s, G) - N2(F2s, o)) <= 100 /\ Abs(E2(F2s, G) - E2(F2s, o)) <= 100
  /\ Abs(R3(F2s, G) + R3(F2s, o)) <= 130 /\ Abs(N3(F2s, G) + N3(F2s, o)) <= 160 /\ Abs(E3(F2s, G) + E3(F2s, o)) <= 160
Overhead == (la = de /\ k % 24 = 0) =>
  /\ Abs(R2(F2s, G) - F2s) <= 60 /\ Abs(N2(F2s, G)) <= 60 /\ Abs(E2(F2s, G)) <= 60
  /\ Abs(R3(F2s, G) - F2s) <= 100 /\ Abs(N3(F2s, G)) <= 100
(* the displacement of degree two, tangential part is the gradient of the radial: differences over the turn *)
Gradient == LET a == Geo(la - 6, de - 6, k + 1) z == Geo(la - 6, de - 6, k + 23) IN
  \* d R2 / dH = -cos(phi) E2 ; over +-15 degrees, sin(15)/15 and sin(30)/30 at most
  Abs((R2(F2s, a) - R2(F2s, z)) + (Mul(G.cp, E2(F2s, G)) * 5236) \div 10000) <= 2400
=============================================================================
