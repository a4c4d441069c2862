------------------------------ MODULE SessionMC ------------------------------
(* every history of calls on one model object up to a depth *)
EXTENDS Session, TLC, Json, IOUtils, CSV
CONSTANTS Types, Depth, Design, EmitOn
VARIABLES s, h
vars == <<s, h>>
Deft == CHOOSE t \in Types : TRUE
N == [op : {"spoil"}, t : {"default"}, node : {FALSE}, win : {FALSE}]
Ops == [op : {"extract"}, t : Types, node : BOOLEAN, win : BOOLEAN]
       \cup [op : {"read"}, t : Types, node : BOOLEAN, win : BOOLEAN]
       \cup [op : {"interp"}, t : Types \cup {"default"}, node : {FALSE}, win : {FALSE}] \cup N
(* a default type of currents is not one type: the first interp has to name it *)
Sensible(o) == /\ (o.op = "interp" /\ o.t = "default" /\ Cardinality(Types) > 1) => s.cache.t # "none"
               /\ o.op = "spoil" => (h # <<>> /\ h[Len(h)].op # "spoil")
Init == /\ h = <<>>
        /\ s = [deft |-> Deft, cache |-> Nothing, defnode |-> FALSE, defclean |-> TRUE, held |-> FALSE,
                ans |-> [t |-> "none", conv |-> 1, node |-> FALSE, clean |-> TRUE]]
Next == /\ Len(h) < Depth
        /\ \E o \in Ops : Sensible(o) /\ s' = Step(Design, s, o) /\ h' = Append(h, o)
Spec == Init /\ [][Next]_vars
Lawful == h # <<>> => s.ans = Law(Deft, h)
NeverStale == s.cache.t # "none" => s.cache.conv = 0
Emit == (EmitOn /\ Len(h) = Depth /\ h[Depth].op \in {"extract", "interp"}) => CSVWrite("%1$s", <<ToJson([h |-> h])>>, IOEnv.OUT)
=============================================================================
