------------------------------- MODULE FetchMC --------------------------------
(* The steps of a fetch, with faults between any two of them, against the law.    *)
EXTENDS Fetch, TLC, Json, IOUtils, CSV
CONSTANTS Design, EmitOn, MaxLen, Blocks
VARIABLES s, pc, op, buf, tmp, hist, want
vars == <<s, pc, op, buf, tmp, hist, want>>
NoOp == [f |-> "", proto |-> "", fault |-> "", hash |-> "", local |-> FALSE]
Full(v) == <<v, Blocks>>
Fetches == {[f |-> "fetch", proto |-> p, fault |-> x, hash |-> h, local |-> y] : p \in Protocols, x \in Faults \cup {""}, h \in Checksums, y \in BOOLEAN}
Ops == {o \in Fetches : (o.fault = "" \/ o.fault \in Knows(o.proto)) /\ (o.local \/ (o.hash = "none" /\ o.fault \notin {"full", "killed"}))}
Init == /\ s = [remote |-> Full(1), rtime |-> "t1", local |-> None, ltime |-> "", status |-> "", ret |-> None]
        /\ pc = "idle" /\ op = NoOp /\ buf = None /\ tmp = None /\ hist = <<>> /\ want = s
Idle == pc = "idle" /\ Len(hist) < MaxLen
(* the server has another version, or the same with another time; the user changes or removes the copy *)
Serve == Idle /\ s.remote[1] < 3 /\ s' = [s EXCEPT !.remote = Full(@[1] + 1), !.rtime = "t" \o ToString(s.remote[1] + 1)] /\ want' = s' /\ hist' = Append(hist, [NoOp EXCEPT !.f = "serve"]) /\ UNCHANGED <<pc, op, buf, tmp>>
Edit == Idle /\ s.local \notin {None, Full(9)} /\ s' = [s EXCEPT !.local = Full(9), !.ltime = "edit"] /\ want' = s' /\ hist' = Append(hist, [NoOp EXCEPT !.f = "edit"]) /\ UNCHANGED <<pc, op, buf, tmp>>
Start == /\ Idle /\ \E o \in Ops : op' = o /\ hist' = Append(hist, o) /\ want' = Law(s, o, "now")
         /\ pc' = "connect" /\ buf' = None /\ tmp' = None /\ UNCHANGED s
End(status) == pc' = "idle" /\ s' = [s EXCEPT !.status = status, !.ret = IF status = "ok" THEN buf ELSE None] /\ UNCHANGED <<op, buf, tmp, hist, want>>
Go(next) == pc' = next /\ UNCHANGED <<s, op, hist, want>>
Connect == /\ pc = "connect"
           /\ IF op.fault \in {"refused", "missing"} THEN End("error") ELSE Go("transfer") /\ buf' = <<s.remote[1], 0>> /\ UNCHANGED tmp
Transfer ==
  /\ pc = "transfer"
  /\ \/ buf[2] < Blocks /\ ~(op.fault = "cut" /\ buf[2] = Blocks - 1) /\ buf' = <<buf[1], buf[2] + 1>> /\ Go("transfer") /\ UNCHANGED tmp
     \/ buf[2] < Blocks /\ op.fault = "cut" /\ (IF Design = "short is complete" THEN Go("stamp") /\ UNCHANGED <<buf, tmp>> ELSE End("error"))
     \/ buf[2] = Blocks /\ Go(Bug(Design, "stamp last", "stamp", "gate")) /\ UNCHANGED <<buf, tmp>>
(* the time is asked for before anything is written *)
Stamp == pc = "stamp" /\ (IF op.fault = "stamp" THEN End("error") ELSE IF Design = "stamp last" THEN End("ok") ELSE Go("gate") /\ UNCHANGED <<buf, tmp>>)
Writing == op.local /\ Bug(Design, "gate on the copy", Sum(op.hash, s.local, s.remote) # buf, Sum(op.hash, s.local, s.remote) # s.local)
Gate == pc = "gate" /\ (IF Writing THEN Go("write") /\ tmp' = <<buf[1], 0>> /\ UNCHANGED buf ELSE End("ok"))
(* blocks go to a file of their own, which takes the place of the copy when complete *)
Stops == op.fault \in {"full", "killed"}
Write ==
  /\ pc = "write"
  /\ \/ tmp[2] < buf[2] /\ tmp' = <<tmp[1], tmp[2] + 1>> /\ s' = (IF Design = "in place" THEN [s EXCEPT !.local = tmp', !.ltime = "now"] ELSE s) /\ UNCHANGED <<pc, op, buf, hist, want>>
     \/ Stops /\ End("error")
     \/ tmp[2] = buf[2] /\ ~Stops /\ pc' = Bug(Design, "stamp last", "idle", "stamp")
        /\ s' = [s EXCEPT !.local = tmp, !.ltime = IF Stamps(op.proto) /\ Design # "no stamp" THEN s.rtime ELSE "now", !.status = "ok", !.ret = buf] /\ UNCHANGED <<op, buf, tmp, hist, want>>
Next == Serve \/ Edit \/ Start \/ Connect \/ Transfer \/ Stamp \/ Gate \/ Write
Spec == Init /\ [][Next]_vars /\ WF_vars(Connect \/ Transfer \/ Stamp \/ Gate \/ Write)
(* at rest the state is what the law says; at every moment the copy is a complete one *)
Lawful == pc = "idle" => s = want
NeverPartial == s.local = None \/ s.local[2] = Blocks
Ends == (pc # "idle") ~> (pc = "idle")
Emit == (EmitOn /\ pc = "idle" /\ hist # <<>> /\ Len(hist) = MaxLen) => CSVWrite("%1$s", <<ToJson([hist |-> hist])>>, IOEnv.OUT)
=============================================================================
