------------------------------- MODULE CodesMC --------------------------------
(* vectors: at most two coefficients away from the base, each over its range     *)
(* (encode step, then decode step)                                               *)
EXTENDS Codes, TLC, Json, IOUtils, CSV
CONSTANTS Extra
VARIABLES v, pc, txt, num, xdo, back
vars == <<v, pc, txt, num, xdo, back>>
Base == <<1, 0, 0, 0, 0, 0, 0>>
Rng(i) == IF i = 1 THEN 0 .. 12 ELSE IF i = 7 THEN -1 .. 2 ELSE -6 .. 7
(* multiples that only the letters of the extended code can tell *)
Far(i) == IF i = 1 THEN 13 .. 16 ELSE (-8 .. -7) \cup (8 .. 16)
Pairs == {ij \in (1 .. 7) \X (1 .. 7) : ij[1] < ij[2]}
Set2(ij, a, b) == [k \in 1 .. 7 |-> IF k = ij[1] THEN a ELSE IF k = ij[2] THEN b ELSE Base[k]]
ExtraVals == {-5, -4, -1, 1, 4, 5, 6}
Init == /\ \/ \E ij \in Pairs : \E a \in Rng(ij[1]), b \in Rng(ij[2]) : v = Set2(ij, a, b)
           \/ \E i \in 1 .. 7 : \E a \in Far(i) : v = [Base EXCEPT ![i] = a]
           \/ Extra /\ \E a, b, c, d, e \in {-5, 0, 4, 6} : \E t \in {0, 2, 9, 11} : v = <<t, a, b, c, d, e, 1>>
        /\ pc = "encode" /\ txt = <<>> /\ num = -1 /\ xdo = <<>> /\ back = <<>>
Encode == /\ pc = "encode" /\ pc' = "decode" /\ UNCHANGED <<v, back>>
          /\ txt' = IF DoodsonRep(v) THEN Text(v) ELSE <<>>
          /\ num' = IF Plain(v) THEN Number(v) ELSE -1
          /\ xdo' = IF XRep(v) THEN XText(v) ELSE <<>>
          /\ CSVWrite("%1$s", <<ToJson([v |-> v])>>, IOEnv.OUT)
Decode == /\ pc = "decode" /\ pc' = "done" /\ UNCHANGED <<v, txt, num, xdo>>
          /\ back' = << IF txt = <<>> THEN <<>> ELSE FromText(txt),
                        IF num = -1 THEN <<>> ELSE FromNumber(num),
                        IF xdo = <<>> THEN <<>> ELSE FromX(xdo) >>
Next == Encode \/ Decode
Spec == Init /\ [][Next]_vars
RoundTrip == pc = "done" =>
   /\ (DoodsonRep(v) => back[1] = Six(v)) /\ (Plain(v) => back[2] = Six(v)) /\ (XRep(v) => back[3] = v)
TextIsNumber == (pc = "done" /\ Plain(v)) => \A i \in 1 .. 6 : CharVal(SelectSeq(txt, LAMBDA c : c # ".")[i]) = (num \div Pow(i)) % 10
=============================================================================
