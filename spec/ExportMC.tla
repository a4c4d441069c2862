------------------------------- MODULE ExportMC -------------------------------
EXTENDS Export, TLC, Json, IOUtils, CSV
CONSTANTS Design, EmitOn, MaxLen
VARIABLES s, hist
vars == <<s, hist>>
Op(f, i, ser) == [f |-> f, i |-> i, ser |-> ser]
Ops == UNION {CASE s.obj[i].k = "model" -> {Op("export", i, b) : b \in BOOLEAN} \cup {Op("outer", i, FALSE), Op("inner", i, FALSE)}
                [] OTHER -> {Op("from_dict", i, FALSE), Op("outer", i, FALSE), Op("inner", i, FALSE)} \cup (IF Form(s, i) = "text" THEN {Op("from_file", i, FALSE)} ELSE {}) : i \in 1 .. Len(s.obj)}
Init == s = Start /\ hist = <<>>
Next == Len(hist) < MaxLen /\ Len(s.obj) < 4 /\ \E op \in Ops : s' = Step(s, op, Design) /\ hist' = Append(hist, op)
Spec == Init /\ [][Next]_vars
Independent == LET w == Wanted(hist) IN Len(w) = Len(s.obj) /\ \A i \in 1 .. Len(s.obj) : Value(s, i) = w[i]
Emit == (EmitOn /\ hist # <<>>) => CSVWrite("%1$s", <<ToJson([hist |-> hist])>>, IOEnv.OUT)
=============================================================================
