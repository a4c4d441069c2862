------------------------------- MODULE InferMC -------------------------------
(* The inference walks the bands of a convention one after another, collecting     *)
(* contributions; what was collected must be the effective set whatever the order.  *)
EXTENDS Infer, TLC, Json, IOUtils, CSV
CONSTANTS Convs, Deep
Drop == {{}, {"2n2"}, {"mm"}, {"q1"}, {"m2", "s2"}, {"q1", "p1", "n2"}, {"q1", "p1", "n2", "k2"}, {"node", "q1", "n2"},
         {"o1", "k1", "m2", "s2", "n2", "q1", "mf"}} \cup (IF Deep THEN {{"k1"}, {"s2", "mf"}, {"o1", "p1", "2n2"}, {"k2", "2n2", "p1", "node"}} ELSE {})
Extras == {{}, {"m4", "s1"}, {"mu2", "l2", "j1"}, {"k2", "p1", "2n2"}, ShortMinors \ {"2q1"}, SemiMinors \ {"eps2"},
           DiurMinors \ {"2q1"}, LongMinors \ {"sa"}, ShortMinors \cup SemiMinors \cup DiurMinors \cup LongMinors}
           \cup (IF Deep THEN {{"t2"}, {"m1a", "l2b"}, {"sa", "ssa", "mst"}, {"2q1", "eps2", "sa"}} ELSE {})
Requests == {{}, {"2q1"}, {"eps2"}, {"sa"}, {"l2", "t2", "mf", "m2"}, {"bogus"}, {"m1", "j1", "2n2", "mt"}, {"p1", "k2", "m1a", "mq"}}
           \cup (IF Deep THEN {{"tau1", "r2"}, {"mu2"}, {"l2b", "lambda2", "chi1", "msf"}} ELSE {})
VARIABLES conv, sup, req, all, todo, got
vars == <<conv, sup, req, all, todo, got>>
Init == /\ conv \in Convs
        /\ \E d \in Drop : \E x \in Extras : sup = (MajorsOf(conv) \ d) \cup x
        /\ req \in Requests /\ all \in BOOLEAN /\ (all => req = {})
        /\ (~all => req # {})
        /\ todo = Bands(conv) /\ got = {}
Band(b) == /\ todo' = todo \ {b}
           /\ got' = got \cup (IF Enough(b, sup) THEN {m \in b[3] : m \notin sup /\ (all \/ m \in req)} ELSE {})
           /\ (todo = {b} => CSVWrite("%1$s", <<ToJson([conv |-> conv, sup |-> sup, req |-> req, all |-> all])>>, IOEnv.OUT))
           /\ UNCHANGED <<conv, sup, req, all>>
Next == \E b \in todo : Band(b)
Spec == Init /\ [][Next]_vars
Collected == todo = {} => got = Effective(conv, sup, req, all)
NeverSupplied == got \cap sup = {}
OnlyRequested == all \/ got \subseteq req
=============================================================================
