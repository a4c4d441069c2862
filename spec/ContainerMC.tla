----------------------------- MODULE ContainerMC ------------------------------
(* All histories over a few names; one behaviour is emitted per transition of   *)
(* the abstract state graph (the history is hidden by VIEW).                    *)
EXTENDS Container, TLC, Json, IOUtils, CSV
CONSTANTS Names, Values, MaxLen
VARIABLES s, h, last
vars == <<s, h, last>>
Ops == [op : {"append", "update"}, n : Names, v : Values]
  \cup [op : {"pop", "get", "scribble"}, n : Names]
  \cup [op : {"open", "next"}, i : {1, 2}]
Init == s = Empty /\ h = <<>> /\ last = <<"ok", "", 0>>
Do(o) == /\ Len(h) < MaxLen
         /\ (o.op = "next" => s.its[o.i] >= 0)
         /\ s' = Step(s, o).st /\ last' = Step(s, o).res
         /\ h' = Append(h, o)
         /\ CSVWrite("%1$s", <<ToJson(h')>>, IOEnv.OUT)
Next == \E o \in Ops : Do(o)
Spec == Init /\ [][Next]_vars
View == s
(* design invariants *)
OneEntryPerName == /\ Cardinality(Range(s.order)) = Len(s.order) /\ DOMAIN s.val = Range(s.order)
ItersBounded == \A i \in {1, 2} : s.its[i] <= Len(s.order)
(* an error leaves the container alone, and lookups never change it *)
Frame == [][(last'[1] = "error" \/ h'[Len(h')].op \in {"get", "scribble", "open", "next"})
             => (s'.order = s.order /\ s'.val = s.val)]_vars
OrderKept == [][\A m, n \in Range(s.order) \cap Range(s'.order) :
                 (\E i, j \in 1 .. Len(s.order) : i < j /\ s.order[i] = m /\ s.order[j] = n)
                 => (\E i, j \in 1 .. Len(s'.order) : i < j /\ s'.order[i] = m /\ s'.order[j] = n)]_vars
=============================================================================
