------------------------------ MODULE SpecialMC ------------------------------
(* Four small machines, one per run (Which):                                     *)
(*  "legendre"  the triangle of degrees and orders, filled along the diagonal     *)
(*              and then upwards; a wrong normalisation or step breaks Addition    *)
(*  "rotation"  words of rotations                                                *)
(*  "alias"     folding a frequency into the band                                 *)
(*  "love"      frequencies around the resonance                                  *)
EXTENDS Special, TLC, Json, IOUtils, CSV
CONSTANTS Which, MaxLen, MaxDeg, FMax, FsMax, Plain
VARIABLES s
Angles == IF Which = "rotation" THEN DOMAIN Ang \ {"q0"} ELSE {}
Init == s \in CASE Which = "legendre" -> {[l |-> 0, m |-> 0, pt |-> k, v |-> 1, prev |-> 0] : k \in 1 .. Len(Pts)}
               [] Which = "rotation" -> {[w |-> <<>>, M |-> I3]}
               [] Which = "alias" -> {[f |-> f, fs |-> fs, v |-> f] : f \in 0 .. FMax, fs \in 1 .. FsMax}
               [] OTHER -> {[model |-> mo, num |-> a, den |-> b] : mo \in DOMAIN Love, a \in (-6) .. 12, b \in {1, 2, 5}}
Diag == /\ s.l = s.m /\ s.l < MaxDeg
        /\ s' = [s EXCEPT !.l = @ + 1, !.m = @ + 1, !.v = (2 * s.m + 1) * 2 * Pts[s.pt][2] * @, !.prev = 0]
Up == /\ s.l < MaxDeg
      /\ s' = [s EXCEPT !.l = @ + 1, !.prev = s.v,
            !.v = ((2 * s.l + 1) * 2 * Pts[s.pt][1] * @ - (s.l + s.m) * 100 * s.prev) \div (s.l + 1 - s.m)]
Turn == /\ Len(s.w) < MaxLen
        /\ \E ax \in {"x", "y", "z"}, g \in Angles : s' = [w |-> Append(s.w, <<ax, g>>), M |-> Mul(R(ax, g), s.M)]
(* one fold: whole sampling frequencies are taken off, the upper half is reflected *)
FoldStep == /\ 2 * s.v > s.fs
            /\ s' = [s EXCEPT !.v = IF @ >= s.fs THEN @ - s.fs ELSE s.fs - @]
Next == CASE Which = "legendre" -> Diag \/ Up [] Which = "rotation" -> Turn [] Which = "alias" -> FoldStep [] OTHER -> FALSE /\ s' = s
Spec == Init /\ [][Next]_s
Explicit(l, m, x) ==
   LET c == x[1] u == x[2] IN
   CASE l = 0 -> 1 [] l = 1 -> (IF m = 0 THEN 2 * c ELSE 2 * u)
     [] l = 2 -> <<2 * (3 * c * c - 25), 12 * c * u, 12 * u * u>>[m + 1]
     [] OTHER -> <<4 * (5 * c * c * c - 75 * c), 12 * u * (5 * c * c - 25), 120 * c * u * u, 120 * u * u * u>>[m + 1]
Legendre == Which = "legendre" =>
   ( /\ s.v = P(s.l, s.m, Pts[s.pt])
     /\ (s.l <= 3 => s.v = Explicit(s.l, s.m, Pts[s.pt]))
     /\ P(s.l, s.m, <<-Pts[s.pt][1], Pts[s.pt][2]>>) = Sgnm(s.l + s.m) * s.v )
RECURSIVE AddUp(_, _, _)
AddUp(l, m, x) == IF m < 0 THEN 0 ELSE (IF Plain THEN 1 ELSE Delta(m)) * Fact(l - m) * (Fact(2 * l) \div Fact(l + m)) * P(l, m, x) * P(l, m, x) + AddUp(l, m - 1, x)
(* addition theorem, exactly *)
Addition == (Which = "legendre" /\ s.l <= 3) => AddUp(s.l, s.l, Pts[s.pt]) = Fact(2 * s.l) * Pow(100, s.l)
Rotation == Which = "rotation" =>
   LET n == Pow(25, Len(s.w)) IN
   ( /\ \A i, j \in 1 .. 3 : s.M[i][1] * s.M[j][1] + s.M[i][2] * s.M[j][2] + s.M[i][3] * s.M[j][3] = (IF i = j THEN n ELSE 0)
     /\ Det(s.M) = Pow(125, Len(s.w)) /\ s.M = Word(s.w) )
Aliased == Which = "alias" =>
   ( /\ (s.v % s.fs = s.f % s.fs \/ (s.v + s.f) % s.fs = 0)
     /\ (2 * s.v <= s.fs => s.v = Fold(s.f, s.fs) /\ \A k \in 0 .. 60 : LET d == s.f - k * s.fs IN (IF d < 0 THEN -d ELSE d) >= s.v) )
Valid == IF Which # "love" THEN FALSE ELSE s.num + s.den > 0 \/ 2 * s.num < -3 * s.den
Emit == CASE Which = "legendre" -> (s.l <= 3 => CSVWrite("%1$s", <<ToJson([l |-> s.l, m |-> s.m, pt |-> s.pt, c |-> Pts[s.pt][1], u |-> Pts[s.pt][2]])>>, IOEnv.OUT))
          [] Which = "rotation" -> (Len(s.w) > 0 => CSVWrite("%1$s", <<ToJson([w |-> s.w, ang |-> [k \in 1 .. Len(s.w) |-> Ang[s.w[k][2]]]])>>, IOEnv.OUT))
          [] Which = "alias" -> (s.v = s.f => CSVWrite("%1$s", <<ToJson([f |-> s.f, fs |-> s.fs])>>, IOEnv.OUT))
          [] OTHER -> (Valid => CSVWrite("%1$s", <<ToJson([model |-> s.model, fcn |-> Love[s.model].fcn, num |-> s.num, den |-> s.den, alias |-> Alias])>>, IOEnv.OUT))
=============================================================================
