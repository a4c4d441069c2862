-------------------------------- MODULE SkyMC --------------------------------
(* Every walk between the frames of at most MaxLen moves that starts in the     *)
(* celestial or the terrestrial frame.  What it does to a direction depends on   *)
(* its two ends alone.                                                           *)
EXTENDS Sky, TLC, Json, IOUtils, CSV
CONSTANTS MaxLen, Slip
VARIABLES at, walk, start, turn
vars == <<at, walk, start, turn>>
Init == at \in {1, 6} /\ start = at /\ walk = <<>> /\ turn = [k \in 1 .. 5 |-> 0]
Move(s, d) == LET m == <<s, d>> IN
    /\ Len(walk) < MaxLen /\ (From(m) = at \/ (Slip /\ d = 1 /\ s \in {"precession", "nutation"} /\ at \in {2, 3}))
    /\ at' = To(m) /\ walk' = Append(walk, m) /\ turn' = [turn EXCEPT ![Pos(s)] = @ + d] /\ UNCHANGED start
Next == \E s \in Steps, d \in {1, -1} : Move(s, d)
Spec == Init /\ [][Next]_vars
(* the net number of times each step was taken is a function of the ends *)
EndsDecide == \A k \in 1 .. 5 : turn[k] = (IF start <= k /\ k < at THEN 1 ELSE IF at <= k /\ k < start THEN -1 ELSE 0)
Typed == Goes(start, walk) = at
Full == Len(walk) = 5 /\ at = 6 /\ start = 1 => walk = [k \in 1 .. 5 |-> <<StepSeq[k], 1>>]
(* the published matrices are near rotations: rows of unit length *)
Unit == at # 0 /\ \A n \in DOMAIN Matrices : \A i \in 1 .. 3 :
   LET R(x) == x \div 10000 IN
   LET s == R(Matrices[n][i][1]) * R(Matrices[n][i][1]) + R(Matrices[n][i][2]) * R(Matrices[n][i][2]) + R(Matrices[n][i][3]) * R(Matrices[n][i][3])
   IN Absz(s - 100000000) < 60000
Done == at \in {1, 6} /\ walk # <<>>
Emit == (Done => CSVWrite("%1$s", <<ToJson([kind |-> "walk", start |-> start, at |-> at, walk |-> walk])>>, IOEnv.OUT))
     /\ (walk = <<>> /\ at = 1 => CSVWrite("%1$s", <<ToJson([kind |-> "tables", solar |-> Solar, lunar |-> Lunar, seasons |-> Seasons, noon |-> Noon,
            sunfar |-> SunFar, moonfar |-> MoonFar, moondec |-> MoonDec])>>, IOEnv.OUT))
=============================================================================
