------------------------------- MODULE NodalMC -------------------------------
(* The evaluator: constituents of a batch one after another; a compound pushes its *)
(* parents, evaluates them as a batch of their own and combines.  Registers are     *)
(* shared between constituents, results are not.                                    *)
EXTENDS Nodal, TLC, Json, IOUtils, CSV
CONSTANTS Names, MaxLen, Convs
VARIABLES batch, conv, nt, i, sub, acc, out
vars == <<batch, conv, nt, i, sub, acc, out>>
Zero == [j \in 1 .. NP |-> 0]
Batches == UNION {[1 .. k -> Names] : k \in 1 .. MaxLen}
Init == /\ batch \in Batches /\ conv \in Convs /\ nt \in {1, 3}
        /\ i = 1 /\ sub = 1 /\ acc = Zero /\ out = <<>>
Step == /\ i <= Len(batch) /\ sub <= NP
        /\ acc' = [acc EXCEPT ![sub] = WeightsOf(batch[i])[sub]]
        /\ sub' = sub + 1 /\ UNCHANGED <<batch, conv, nt, i, out>>
Store == /\ i <= Len(batch) /\ sub > NP
         /\ out' = Append(out, acc) /\ acc' = Zero /\ sub' = 1 /\ i' = i + 1
         /\ UNCHANGED <<batch, conv, nt>>
Emit == /\ i = Len(batch) + 1 /\ i' = i + 1
        /\ CSVWrite("%1$s", <<ToJson([batch |-> batch, conv |-> conv, nt |-> nt])>>, IOEnv.OUT)
        /\ UNCHANGED <<batch, conv, nt, sub, acc, out>>
Next == Step \/ Store \/ Emit
Spec == Init /\ [][Next]_vars
Independent == \A k \in 1 .. Len(out) : out[k] = WeightsOf(batch[k])
(* the tables themselves: first coefficient is the species, compound speeds add up *)
SpeedSum == \A n \in DOMAIN SpeedIdx : (IsCompound(n) /\ \A j \in 1 .. NP : WeightsOf(n)[j] # 0 => Parents[j][1] \in DOMAIN SpeedIdx) =>
              AbsN(Speed(n) - SumN([j \in 1 .. NP |-> IF WeightsOf(n)[j] = 0 THEN 0 ELSE WeightsOf(n)[j] * Speed(Parents[j][1])])) <= 8
ASSUME SpeedSum
=============================================================================
