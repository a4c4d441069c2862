------------------------------ MODULE PredictMC ------------------------------
(* The accumulator: constituents in listed order, elements in chunks.  Checked:    *)
(* the result is the superposition over the set of constituents, whatever the       *)
(* order, chunking and layout.                                                      *)
EXTENDS Predict, TLC, Json, IOUtils, CSV
CONSTANTS NC, NE, Layouts
VARIABLES layout, order, mask, cut, chunk, k, ht, hm
vars == <<layout, order, mask, cut, chunk, k, ht, hm>>
Perms == {p \in [1 .. NC -> 1 .. NC] : \A i, j \in 1 .. NC : i # j => p[i] # p[j]}
NLoc == IF layout = "series" THEN 1 ELSE NE
(* symbolic contribution of constituent c at location x and time t *)
A(c, x, t) == 1000 * c + 100 * c * x + 7 * c * c * t + x * t
Init == /\ layout \in Layouts /\ order \in Perms
        /\ mask \in [1 .. (IF layout = "series" THEN 1 ELSE NE) -> [1 .. NC -> BOOLEAN]]
        /\ cut \in 0 .. NE - 1 /\ chunk = 1 /\ k = 1
        /\ ht = [e \in 1 .. NE |-> 0] /\ hm = [e \in 1 .. NE |-> FALSE]
Chunk(e) == IF e <= cut THEN 1 ELSE 2
Add == /\ chunk <= 2 /\ k <= NC
       /\ ht' = [e \in 1 .. NE |-> IF Chunk(e) = chunk THEN ht[e] + A(order[k], LocOf(layout, e), TimeOf(layout, e)) ELSE ht[e]]
       /\ hm' = [e \in 1 .. NE |-> IF Chunk(e) = chunk THEN hm[e] \/ mask[LocOf(layout, e)][order[k]] ELSE hm[e]]
       /\ k' = k + 1 /\ UNCHANGED <<layout, order, mask, cut, chunk>>
NextChunk == /\ chunk <= 2 /\ k > NC /\ k' = 1 /\ chunk' = chunk + 1
             /\ (chunk = 2 => CSVWrite("%1$s", <<ToJson([layout |-> layout, order |-> order, mask |-> mask, cut |-> cut])>>, IOEnv.OUT))
             /\ UNCHANGED <<layout, order, mask, cut, ht, hm>>
Next == Add \/ NextChunk
Spec == Init /\ [][Next]_vars
Done == chunk = 3
Superposition == Done => \A e \in 1 .. NE :
   ht[e] = SumP([c \in 1 .. NC |-> A(c, LocOf(layout, e), TimeOf(layout, e))])
Masking == Done => \A e \in 1 .. NE : hm[e] <=> AnyMasked(mask[LocOf(layout, e)])
=============================================================================
