----------------------------- MODULE MirrorTrace -----------------------------
(* Recorded runs of the programs: the server's and the user's files are carried    *)
EXTENDS Mirror, TraceLib
VARIABLES l, remote, local
Set(x) == {x[k] : k \in 1 .. Len(x)}
Options(r) == [prog |-> r.prog, models |-> Set(r.models), format |-> r.format, gzip |-> r.gzip, load |-> r.load, currents |-> r.currents, extrapolated |-> r.extrapolated,
               fault |-> r.fault, at |-> r.at, mode |-> r.mode]
Files(x) == [p \in {x[k].path : k \in 1 .. Len(x)} |-> LET f == CHOOSE f \in Set(x) : f.path = p IN [v |-> f.v, t |-> f.t, mode |-> f.mode]]
Table(x) == [p \in {x[k].id : k \in 1 .. Len(x)} |-> Set((CHOOSE e \in Set(x) : e.id = p).members)]
NextLocal(r) == CASE r.kind = "begin" -> [x \in {} |-> 0] [] r.kind \in {"edit", "run"} -> Files(r.files) [] OTHER -> local
NextRemote(r) == CASE r.kind = "begin" -> [x \in {} |-> 0] [] r.kind = "publish" -> Table(r.products) [] OTHER -> remote
(* a written file of today's time *)
Agrees(want, got, r) == /\ got.v = want.v /\ got.mode = want.mode
                        /\ (IF want.t = -1 THEN got.t >= r.now[1] - 2 /\ got.t <= r.now[2] + 2 ELSE got.t = want.t)
Run(r) ==
  LET o == Options(r)
      got == Files(r.files)
      want == After(o, remote, local)
      ws == {w.at : w \in Writes(o, remote, local)}
      bad == Strikes(o, remote, local)
  IN Violated({
    <<"ErrorRaised", r.evil \/ (bad <=> r.status # "ok")>>,
    (* all that was asked for is there *)
    <<"Complete", ~bad /\ ~r.evil => DOMAIN want \subseteq DOMAIN got>>,
    <<"OnlyWanted", DOMAIN got \subseteq DOMAIN want>>,
    <<"Contents", \A at \in DOMAIN got \cap DOMAIN want : \/ got[at].v = want[at].v \/ ((bad \/ r.evil) /\ at \in DOMAIN local /\ got[at].v = local[at].v)>>,
    (* a file is as it was or wholly the new one, with its time and permissions *)
    <<"WholeOrUntouched", \A at \in DOMAIN got \cap DOMAIN want : \/ Agrees(want[at], got[at], r) \/ ((bad \/ r.evil) /\ at \in DOMAIN local /\ got[at] = local[at])>>,
    <<"Untouched", \A at \in DOMAIN local \ ws : at \in DOMAIN got /\ got[at] = local[at]>>,
    <<"Inside", r.outside = 0>>,
    <<"NothingElse", r.fault = "killed" \/ r.others = 0>>,
    <<"FoundByTheRegistry", ~bad /\ ~r.evil => r.lost = <<>> >>,
    <<"Credentials", r.login # "wrong">>,
    <<"Log", r.log # "wrong">> })
Clauses(r) ==
  CASE r.kind = "run" -> Run(r)
    [] r.kind = "verify" ->
         LET want == r.fault = "" /\ Verified(r.currents, r.entries, r.before) IN Violated({
         <<"Verified", want <=> r.status = "ok">>,
         <<"ContentsKept", r.after = r.before>>,
         <<"ModificationTime", want => \A k \in 1 .. Len(r.entries) : Matches(r.currents, r.entries[k]) => r.times[k] = r.entries[k].t>>,
         <<"Permissions", want => \A k \in 1 .. Len(r.entries) : Matches(r.currents, r.entries[k]) => r.modes[k] = r.mode>>,
         <<"OthersKept", \A k \in 1 .. Len(r.entries) : ~Matches(r.currents, r.entries[k]) => r.times[k] = r.timesbefore[k] >>,
         <<"Token", r.token>> })
    [] r.kind \in {"begin", "publish", "edit"} -> {}
    [] OTHER -> {"UnknownKind"}
TraceInit == l = 1 /\ remote = [x \in {} |-> 0] /\ local = [x \in {} |-> 0]
TraceNext == l <= Len(Trace) /\ Report(l, Clauses(Trace[l])) /\ l' = l + 1 /\ remote' = NextRemote(Trace[l]) /\ local' = NextLocal(Trace[l])
TraceSpec == TraceInit /\ [][TraceNext]_<<l, remote, local>>
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
