------------------------------- MODULE ProjMC -------------------------------
EXTENDS Proj, TLC, Json, IOUtils, CSV
CONSTANTS Design, EmitOn, MaxLen
VARIABLES o, hist, good
vars == <<o, hist, good>>
Some == {"geo", "cats", "arctic", "3031"}
Ops(ob) == {[f |-> "convert", P |-> P, d |-> d] : P \in Some, d \in {"F", "B"}}
           \cup {[f |-> "get", P |-> P, d |-> ""] : P \in Some}
           \cup (IF ob.crs = "none" THEN {} ELSE {[f |-> "transform", P |-> ob.crs, d |-> d] : d \in {"", "F", "B"}})
Init == o = New /\ hist = <<>> /\ good = TRUE
(* the system asked for last and the direction of the last conversion *)
RECURSIVE LastSys(_), LastDir(_)
LastSys(h) == IF h = <<>> THEN "none" ELSE IF h[Len(h)].f \in {"convert", "get"} THEN h[Len(h)].P ELSE LastSys(SubSeq(h, 1, Len(h) - 1))
LastDir(h) == IF h = <<>> THEN "F" ELSE IF h[Len(h)].f = "convert" THEN h[Len(h)].d ELSE LastDir(SubSeq(h, 1, Len(h) - 1))
Asked(h) == LET op == h[Len(h)] IN <<LastSys(h), IF op.f = "transform" /\ op.d # "" THEN op.d ELSE LastDir(h)>>
Next == /\ Len(hist) < MaxLen
        /\ \E op \in Ops(o) : /\ hist' = Append(hist, op) /\ o' = Step(o, op, Design)
                              /\ good' = (good /\ (op.f = "get" \/ Computes(o, op, Design) = Asked(Append(hist, op))))
Spec == Init /\ [][Next]_vars
DependsOnArguments == good
(* circles: opposite places are opposite, a quarter turn exchanges the axes *)
Symmetric == \A P \in {s \in Systems : Polar(s)}, k \in 0 .. 7 :
   LET a == Signs(P, k)  b == Signs(P, (k + 4) % 8) IN a[1] = 0 - b[1] /\ a[2] = 0 - b[2] /\ (Diagonal(k) <=> a[1] * a[2] # 0)
Emit == (EmitOn /\ hist # <<>> /\ hist[Len(hist)].f # "get") => CSVWrite("%1$s", <<ToJson([hist |-> hist])>>, IOEnv.OUT)
=============================================================================
