------------------------------ MODULE LoginTrace ------------------------------
EXTENDS Login, TraceLib
VARIABLE l
Pair(p) == <<p[1], p[2]>>
Clauses(r) == LET w == Law(r.c, r.v) IN
  CASE r.kind = "login" -> Violated({
         <<"Sent", Len(r.sent) = Len(w.sent) /\ \A k \in 1 .. Len(r.sent) : Pair(r.sent[k]) = w.sent[k]>>,
         <<"Asked", Len(r.asks) = Len(w.asks) /\ \A k \in 1 .. Len(r.asks) : r.asks[k] = w.asks[k][1]>>,
         <<"Result", r.result = IF w.status = "in" THEN "in" ELSE "RuntimeError">>,
         <<"NamesTheCentre", r.prompts>>,
         <<"FileIsPrivate", r.private>>,
         (* later requests go with the accepted credentials *)
         <<"StaysIn", w.status = "in" => r.later = "yes">> })
    [] r.kind = "token" -> LET t == IF r.build THEN w.status ELSE "in" IN Violated({
         <<"Sent", r.build => (Len(r.sent) = Len(w.sent) /\ \A k \in 1 .. Len(r.sent) : Pair(r.sent[k]) = w.sent[k])>>,
         <<"NoLogin", ~r.build => r.sent = <<>> /\ r.asks = <<>>>>,
         <<"Request", IF t = "in" THEN r.requests = <<r.want>> ELSE r.requests = <<>>>>,
         <<"Authorised", t = "in" => r.authorised>>,
         <<"Answer", IF t # "in" \/ r.fault THEN r.result = "RuntimeError" ELSE r.result = "ok" /\ r.same>> })
    [] OTHER -> {"UnknownKind"}
Failing(r) == IF r.status # "ok" THEN {"CallCompletes"} ELSE Clauses(r)
TraceInit == l = 1
TraceNext == l <= Len(Trace) /\ Report(l, Failing(Trace[l])) /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_l
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
