------------------------------ MODULE RegistryMC ------------------------------
EXTENDS Registry, TLC, Json, IOUtils, CSV
CONSTANTS Design, EmitOn, MaxLen
VARIABLES o, hist, good, answer
vars == <<o, hist, good, answer>>
(* the databases of the machine: the built-in one, one that adds, one that overrides *)
Built == [elevation |-> [n \in {"a", "b", "gone"} |-> CASE n = "a" -> "A" [] n = "b" -> "B" [] OTHER -> "missing"], current |-> [n \in {"c"} |-> "C"]]
Adds == [elevation |-> [n \in {"x"} |-> "X"], current |-> [n \in {} |-> ""]]
Over == [elevation |-> [n \in {"a"} |-> "A2"], current |-> [n \in {"c", "x"} |-> IF n = "c" THEN "C2" ELSE "X2"]]
Extras == {<<>>, <<"adds">>, <<"over">>, <<"adds", "over">>}
Db(k, e) == LET s == [j \in 1 .. Len(e) |-> IF e[j] = "adds" THEN Adds[k] ELSE Over[k]] IN
            IF Design = "sections replaced" /\ e # <<>> THEN <<s[Len(e)]>> ELSE <<Built[k]>> \o s
Kinds == {"elevation", "current"}
Known == {"a", "b", "c", "x", "gone", "nothing"}
Ops == {[kind |-> k, name |-> n, extra |-> e, then |-> w] : k \in Kinds, n \in Known, e \in Extras, w \in {"", "read", "interp"}}
Quick(op) == op.name \in {"x", "nothing", "gone"} => Len(op.extra) <= 1
Init == o = New /\ hist = <<>> /\ good = TRUE /\ answer = ""
(* what the request asks for, without any history *)
Asked(op) == LET b == <<Built[op.kind]>> \o [j \in 1 .. Len(op.extra) |-> IF op.extra[j] = "adds" THEN Adds[op.kind] ELSE Over[op.kind]]
                 d == Find(b, op.name) IN IF d = "missing" THEN "" ELSE d
Got(op) == LET d == Find(Db(op.kind, op.extra), op.name) IN IF d = "missing" THEN "" ELSE d
(* a lookup, and then maybe the constants are read, or asked for *)
Next == /\ Len(hist) < MaxLen
        /\ \E op \in {x \in Ops : Quick(x)} :
          LET n == Look(o, Got(op), Design)
              w == IF Got(op) = "" THEN "" ELSE op.then IN
          /\ op.then = w
          /\ o' = (IF w = "" THEN n ELSE IF w = "interp" THEN [n EXCEPT !.cache = Interpolates(n)] ELSE Read(n))
          /\ hist' = Append(hist, op) /\ answer' = Got(op)
          /\ good' = (good /\ Got(op) = Asked(op) /\ (Got(op) = "" \/ n.left = {}) /\ (w = "interp" => Interpolates(n) = Asked(op)))
Spec == Init /\ [][Next]_vars
DependsOnRequest == good
(* merging never loses a name *)
NothingLost == hist # <<>> => \A k \in Kinds, e \in Extras : DOMAIN Built[k] \subseteq Names(Db(k, e)) /\ (\A n \in Names(Db(k, e)) : Find(Db(k, e), n) # "")
Emit == (EmitOn /\ hist # <<>> /\ Len(hist) = MaxLen) => CSVWrite("%1$s", <<ToJson([hist |-> hist])>>, IOEnv.OUT)
=============================================================================
