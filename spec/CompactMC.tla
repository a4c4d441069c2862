------------------------------ MODULE CompactMC ------------------------------
EXTENDS Compact, TLC, Json, IOUtils, CSV
CONSTANTS Design, EmitOn
VARIABLES f, ic, has, left, todo, k, good
vars == <<f, ic, has, left, todo, k, good>>
Dims == {<<1, 2>>, <<3, 2>>}
Patches == [nc : 1 .. 3, nz : {1, 2}, nv : {1, 3}]
PatchSeqs == {<<>>} \cup {<<p>> : p \in Patches} \cup {<<p, q>> : p \in {x \in Patches : x.nv = 3 /\ x.nz = 2}, q \in {x \in Patches : x.nv = 1 /\ x.nz = 1}}
Init == /\ f \in {[nx |-> d[1], ny |-> d[2], nc |-> n, uv |-> u, patch |-> ps] : d \in Dims, n \in 1 .. 3, u \in BOOLEAN, ps \in PatchSeqs}
        /\ ic \in 1 .. f.nc
        /\ has \in [1 .. Len(f.patch) -> 0 .. 3] /\ \A i \in DOMAIN has : has[i] <= f.patch[i].nc
        /\ left = File(f) /\ todo = Main(f, ic, Design) /\ k = 0 /\ good = TRUE
(* one program of moves: the fields left after it and whether every read met its field *)
RECURSIVE Run(_, _)
Run(rest, prog) ==
  IF prog = <<>> THEN [left |-> rest, good |-> TRUE]
  ELSE LET m == Head(prog) IN
       IF m[1] = "skip" THEN Run(Drop(rest, m[2]), Tail(prog))
       ELSE LET a == Peek(rest)  r == Run(Drop(rest, m[3]), Tail(prog))
            IN [r EXCEPT !.good = @ /\ ToString(a.tag) = ToString(m[2]) /\ a.size = m[3]]
Move == /\ todo # <<>> /\ todo' = <<>> /\ UNCHANGED <<f, ic, has, k>>
        /\ LET r == Run(left, todo) IN left' = r.left /\ good' = (good /\ r.good)
NextPatch == /\ todo = <<>> /\ k < Len(f.patch) /\ k' = k + 1 /\ todo' = Patch(f, k + 1, has[k + 1], Design) /\ UNCHANGED <<f, ic, has, left, good>>
Next == Move \/ NextPatch
Spec == Init /\ [][Next]_vars
ReadsWhatItWants == good
EndsAtEnd == (todo = <<>> /\ k = Len(f.patch)) => left = <<>>
Emit == (EmitOn /\ todo = <<>> /\ k = Len(f.patch)) => CSVWrite("%1$s", <<ToJson([f |-> f, ic |-> ic, has |-> [i \in 1 .. Len(f.patch) |-> has[i]]])>>, IOEnv.OUT)
=============================================================================
