------------------------------- MODULE LoginMC --------------------------------
EXTENDS Login, Json, IOUtils, CSV
CONSTANTS Design, EmitOn, MaxN
VARIABLES c, v, s, pc
vars == <<c, v, s, pc>>
Args == {"absent", "none", "value"}
Cases == [netrc : {"none", "other", "broken", "entry"}, argu : Args, argp : Args, envu : BOOLEAN, envp : BOOLEAN, n : 1 .. MaxN]
Init == /\ c \in Cases /\ v \in [1 .. MaxN + 1 -> {"yes", "no", "down"}] /\ v[MaxN + 1] = "no"
        (* what happens after the centre says yes does not matter *)
        /\ \A i \in 1 .. MaxN : v[i] = "yes" => \A j \in i + 1 .. MaxN : v[j] = "no"
        /\ \A i \in c.n + 1 .. MaxN : v[i] = "no"
        /\ s = Start(c, Design) /\ pc = "ask"
AskStep == pc = "ask" /\ s.status = "running" /\ s' = Answer(s, s.round) /\ pc' = "send" /\ UNCHANGED <<c, v>>
SendStep == pc = "send" /\ s' = Send(s, v) /\ pc' = "after" /\ UNCHANGED <<c, v>>
AfterStep == pc = "after" /\ s.status = "running" /\ s' = After(s, c, Design) /\ pc' = "ask" /\ UNCHANGED <<c, v>>
Next == AskStep \/ SendStep \/ AfterStep
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Over == s.status # "running"
(* the first attempt is made with what the user gave, the file for this centre first *)
FirstIsGiven == s.sent # <<>> =>
   /\ (c.netrc = "entry" => s.sent[1] = <<"N", "N">>)
   /\ (c.netrc # "entry" => /\ (s.sent[1][1] = "A" <=> c.argu = "value") /\ (s.sent[1][2] = "A" <=> c.argp = "value")
                            /\ (s.sent[1][1] = "E" <=> c.argu # "value" /\ c.envu) /\ (s.sent[1][2] = "E" <=> c.argp # "value" /\ c.envp))
(* no pair is tried twice, no more than allowed *)
Few == Len(s.sent) <= c.n /\ Cardinality({s.sent[k] : k \in 1 .. Len(s.sent)}) = Len(s.sent)
Fresh == \A k \in 2 .. Len(s.sent) : s.sent[k] = <<ToString(k), ToString(k)>>
(* every answer is used, nothing is asked that is known *)
Used == Over => \A k \in 1 .. Len(s.asks) : \E j \in 1 .. Len(s.sent) : s.sent[j][IF s.asks[k][1] = "user" THEN 1 ELSE 2] = ToString(s.asks[k][2])
Ends == Over => /\ s.status \in {"in", "refused"}
                /\ (s.status = "in" <=> \E k \in 1 .. c.n : v[k] = "yes") /\ (s.status = "in" => v[Len(s.sent)] = "yes")
                /\ (s.status = "refused" => Len(s.sent) = c.n)
SameAsLaw == Over => s = Law(c, v)
Terminates == <>Over
Emit == (EmitOn /\ Over) => CSVWrite("%1$s", <<ToJson([c |-> c, v |-> v])>>, IOEnv.OUT)
=============================================================================
