------------------------------ MODULE DomainMC ------------------------------
(* Deciding whether a point is in the domain of a model from its land mask     *)
(* alone: every mask of a 3 x 2 lattice with two constituents (their own masks *)
(* in a 2 x 2 one), every query, every method.  The law is the validity of the *)
(* interpolated constituents (Model.tla).                                      *)
EXTENDS Model, TLC
CONSTANTS Design, Own
VARIABLES m, q, meth, land, pc, said
vars == <<m, q, meth, land, pc, said>>
W == IF Own THEN 2 ELSE 3
Mask == [1 .. 2 -> [1 .. W -> BOOLEAN]]
AllWet == [j \in 1 .. 2 |-> [i \in 1 .. W |-> TRUE]]
Mk(w, c1, c2) == [W |-> W, H |-> 2, per |-> 0, glob |-> FALSE, wet |-> w, cwet |-> <<c1, c2>>,
   re |-> <<[j \in 1 .. 2 |-> [i \in 1 .. W |-> 1]], [j \in 1 .. 2 |-> [i \in 1 .. W |-> 1]]>>,
   im |-> <<[j \in 1 .. 2 |-> [i \in 1 .. W |-> 1]], [j \in 1 .. 2 |-> [i \in 1 .. W |-> 1]]>>,
   dep2 |-> [j \in 1 .. 2 |-> [i \in 1 .. W |-> 2]], vel |-> FALSE, lon |-> 0, lat |-> 0, qd |-> 1, qy |-> 1]
Init == /\ m \in (IF Own THEN {Mk(AllWet, a, b) : a \in Mask, b \in Mask} ELSE {Mk(w, AllWet, AllWet) : w \in Mask})
        /\ q \in {<<x, y>> : x \in -1 .. (4 * (W - 1) + 1), y \in {-1, 0, 1, 3, 4, 5}}
        /\ meth \in {"bilinear", "spline", "linear", "nearest"}
        /\ pc = "ask" /\ land = <<>> /\ said = FALSE
(* the weight of invalid nodes, of 16, for each constituent *)
Weigh == /\ pc = "ask" /\ Inside(m, q[1], q[2]) /\ pc' = "weighed"
         /\ LET S == IF meth = "nearest" THEN {CHOOSE k \in NearestNodes(m, q[1], q[2]) : TRUE} ELSE Corners(m, q[1], q[2])
            IN land' = [c \in (IF Design = "first constituent" THEN {1} ELSE {1, 2}) |-> WSum(LAMBDA k : IF Ok(m, c, k) THEN 0 ELSE 1, S)]
         /\ UNCHANGED <<m, q, meth, said>>
Outside == pc = "ask" /\ ~Inside(m, q[1], q[2]) /\ pc' = "done" /\ said' = (Design = "fill is wet") /\ UNCHANGED <<m, q, meth, land>>
Decide == /\ pc = "weighed" /\ pc' = "done" /\ UNCHANGED <<m, q, meth, land>>
          /\ said' = \A c \in DOMAIN land :
                IF meth = "bilinear" \/ Design = "floor" THEN land[c] < 16 ELSE land[c] = 0
Next == Weigh \/ Outside \/ Decide
Spec == Init /\ [][Next]_vars
Tie == meth = "nearest" /\ Cardinality(NearestNodesIf(m, q[1], q[2])) > 1
Agrees == (pc = "done" /\ ~Tie) => said = (\A c \in {1, 2} : \A o \in Interp(m, c, meth, q[1], q[2]) : o.den > 0)
=============================================================================
