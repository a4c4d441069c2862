------------------------------ MODULE WindowMC -------------------------------
(* reading a part of a raster: the pixels (eight units wide) that bounds ask for  *)
EXTENDS Files, TLC, Json, IOUtils, CSV
CONSTANTS Design, EmitOn, MaxN
VARIABLES n, lo, hi, got
vars == <<n, lo, hi, got>>
(* bounds in units of an eighth of a pixel, at most one pixel and a bit outside; some of the raster is inside *)
Init == /\ n \in 1 .. MaxN /\ lo \in -11 .. 8 * MaxN /\ hi \in -11 .. 8 * MaxN + 11 /\ lo <= hi /\ hi >= 0 /\ lo < 8 * n /\ hi <= 8 * n + 11
        /\ got = Pixels(n, lo, hi, Design)
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars
Lawful == /\ Centres(n, lo, hi) \subseteq got /\ got \subseteq Touched(n, lo, hi)
          /\ \A a, b \in got : \A k \in a .. b : k \in got
          (* the extent that a reading of the whole file gives is that of the whole *)
          /\ (lo = 0 /\ hi = 8 * (n - 1)) => got = 0 .. n - 1
(* smaller bounds, fewer pixels *)
Nested == \A a \in lo .. lo + 3 : \A b \in hi - 3 .. hi : (a <= b /\ b >= 0 /\ a < 8 * n) => Pixels(n, a, b, Design) \subseteq got
Emit == (EmitOn /\ got # {}) => CSVWrite("%1$s", <<ToJson([n |-> n, lo |-> lo, hi |-> hi])>>, IOEnv.OUT)
=============================================================================
