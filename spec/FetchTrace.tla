------------------------------ MODULE FetchTrace ------------------------------
(* Recorded fetches: the state the law is about is carried from event to event.   *)
EXTENDS Fetch, TraceLib
VARIABLES l, st
SeqSet(x) == {x[k] : k \in 1 .. Len(x)}
New == [remote |-> None, rtime |-> 0, local |-> None, ltime |-> 0, status |-> "", ret |-> None]
C(x) == IF x = 0 THEN None ELSE <<x, 1>>
Op(r) == [f |-> "fetch", proto |-> r.proto, fault |-> r.fault, hash |-> r.hash, local |-> r.haslocal]
Next1(r) ==
  CASE r.kind = "begin" -> New
    [] r.kind = "serve" -> [st EXCEPT !.remote = C(r.c), !.rtime = r.t]
    [] r.kind = "edit" -> [st EXCEPT !.local = C(r.c), !.ltime = r.t]
    [] r.kind = "fetch" -> Law(st, Op(r), r.aftertime)
    [] OTHER -> st
Clauses(r) ==
  CASE r.kind = "fetch" ->
         LET n == Next1(r) IN Violated({
         <<"ErrorRaised", n.status = "error" <=> r.status # "ok">>,
         <<"LocalCopy", C(r.after) = n.local>>,
         <<"ModificationTime", C(r.after) = n.local => r.aftertime = n.ltime>>,
         <<"Returned", n.status = "ok" /\ r.status = "ok" => C(r.ret) = n.ret /\ r.pos = 0 /\ r.named>>,
         <<"NothingElse", r.fault # "killed" => r.others = 0>>,
         <<"Permissions", Writes(st, Op(r)) /\ n.status = "ok" => r.mode = r.wantmode>> })
    [] r.kind = "hash" -> Violated({ <<"HashOfContents", r.got = r.want>>, <<"PositionKept", r.pos = r.posafter>> })
    [] r.kind = "copy" -> Violated({ <<"Copied", r.done => r.dst = r.src /\ r.dsttime = r.srctime>>, <<"SourceKept", r.srcafter = IF r.move /\ r.done /\ ~r.same THEN 0 ELSE r.src>>, <<"Completes", r.same \/ r.done>> })
    [] r.kind = "split" -> Violated({ <<"Parts", r.got = r.want>>, <<"Joins", r.joined = r.text>> })
    [] r.kind = "json" -> Violated({ <<"ErrorRaised", (r.fault # "") <=> r.status # "ok">>, <<"Document", r.status = "ok" => r.got = r.want>> })
    [] r.kind = "list" -> Violated({
         <<"Rows", SeqSet(r.got) = SeqSet(Keep(r.rows, r.match)) /\ Len(r.got) = Len(Keep(r.rows, r.match))>>,
         <<"Order", IF r.sort THEN Sorted(r.rank) ELSE r.got = Keep(r.rows, r.match)>>,
         <<"Completes", r.status = "ok">> })
    [] r.kind = "check" -> Violated({ <<"Connection", r.got = r.want>> })
    [] r.kind \in {"begin", "serve", "edit"} -> {}
    [] OTHER -> {"UnknownKind"}
TraceInit == l = 1 /\ st = New
TraceNext == l <= Len(Trace) /\ Report(l, Clauses(Trace[l])) /\ l' = l + 1 /\ st' = Next1(Trace[l])
TraceSpec == TraceInit /\ [][TraceNext]_<<l, st>>
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
