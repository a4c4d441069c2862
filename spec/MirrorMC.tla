------------------------------- MODULE MirrorMC ------------------------------
(* A program step by step (list, gate, transfer block by block, replace, stamp),   *)
(* with faults between any two steps, against what Mirror says a run makes of the   *)
(* files.  Two products of one model, of which the second is asked for by a flag.   *)
EXTENDS Mirror, TLC, Json, IOUtils, CSV
CONSTANTS Design, EmitOn, MaxLen
VARIABLES remote, local, pc, todo, tmp, op, want, before, status, hist
vars == <<remote, local, pc, todo, tmp, op, want, before, status, hist>>
Full == 2
Now == 6
M(path, sfx, cls, big) == [path |-> path, sfx |-> sfx, cls |-> cls, v |-> 1, t |-> 2, big |-> big]
First == {M(<<"d", "a.nc">>, ".nc", "model", TRUE), M(<<"r.txt">>, ".txt", "other", FALSE), M(<<"d", "..", "..", "e.nc">>, ".nc", "outside", FALSE)}
Second == {M(<<"c.nc">>, ".nc", "model", TRUE)}
Ids == {"fes2014", "fes2014-load", "fes2014-readme"}
NoOp == [prog |-> "aviso", models |-> {"FES2014"}, format |-> "netcdf", gzip |-> FALSE, load |-> FALSE, currents |-> FALSE, extrapolated |-> FALSE, fault |-> "", at |-> "", mode |-> 1]
Ops == {[NoOp EXCEPT !.gzip = g, !.load = y, !.fault = f[1], !.at = f[2]] : g \in BOOLEAN, y \in BOOLEAN,
        f \in {<<"", "">>, <<"offline", "">>, <<"full", "">>, <<"missing", "fes2014">>, <<"cut", "fes2014-load">>}}
Nothing == [x \in {} |-> 0]
H(f, o) == [f |-> f, gzip |-> o.gzip, load |-> o.load, fault |-> o.fault, at |-> o.at]
Init == /\ remote = [i \in Ids |-> CASE i = "fes2014" -> First [] i = "fes2014-load" -> Second [] OTHER -> {}]
        /\ local = Nothing /\ pc = "idle" /\ todo = {} /\ tmp = 0 /\ op = NoOp /\ want = Nothing /\ before = Nothing /\ status = "" /\ hist = <<>>
Idle == pc = "idle" /\ Len(hist) < MaxLen
(* another version of a member, of a later or an earlier time *)
Publish == /\ Idle /\ UNCHANGED <<local, pc, todo, tmp, op, want, before, status>>
           /\ \E i \in {"fes2014", "fes2014-load"} : \E m \in remote[i] : \E t \in {1, 3, 4} :
                /\ m.v < 3 /\ m.cls # "outside" /\ t # m.t
                /\ remote' = [remote EXCEPT ![i] = (@ \ {m}) \cup {[m EXCEPT !.v = @ + 1, !.t = t]}]
           /\ hist' = Append(hist, H("publish", NoOp))
(* the user's own copy, of any time; or none *)
Edit == /\ Idle /\ \E at \in DOMAIN local : \/ \E t \in {1, 3, 5} : local[at].v # 9 /\ local' = [local EXCEPT ![at] = [v |-> 9, t |-> t, mode |-> 0]]
                                            \/ local' = [x \in DOMAIN local \ {at} |-> local[x]]
        /\ hist' = Append(hist, H("edit", NoOp)) /\ UNCHANGED <<remote, pc, todo, tmp, op, want, before, status>>
All(o) == {w \in UNION {UNION {{[p |-> p, m |-> m, at |-> Place(o, p, m)] : m \in {x \in remote[p.id] : Selected(o, p, x) \/ (Design = "outside too" /\ x.cls = "outside")}} : p \in Products(o, md)} : md \in o.models} :
             ~(Design = "pairs run out" /\ w.p.id = "fes2014-load")}
Start == /\ Idle /\ \E o \in Ops : op' = o
         /\ pc' = "next" /\ todo' = All(op') /\ tmp' = 0 /\ want' = After(op', remote, local) /\ before' = local /\ status' = ""
         /\ hist' = Append(hist, H("run", op')) /\ UNCHANGED <<remote, local>>
End(st) == pc' = "idle" /\ status' = st /\ todo' = {} /\ tmp' = 0 /\ UNCHANGED <<remote, local, op, want, before, hist>>
Same == UNCHANGED <<remote, op, want, before, status, hist>>
(* which gate: the file that would be written, its time against the server's *)
Gate(w) == LET at == IF Design = "gate on the plain name" THEN Place([op EXCEPT !.gzip = FALSE], w.p, w.m) ELSE w.at IN
  CASE Design = "gate on existence" -> at \in DOMAIN local
    [] Design = "no gate" -> FALSE
    [] Design = "gate on seconds" -> at \in DOMAIN local /\ w.m.t <= local[at].t
    [] Design = "gate reversed" -> at \in DOMAIN local /\ w.m.t >= local[at].t
    [] OTHER -> Current(op, w.m, local, at)
Next1 ==
  /\ pc = "next"
  /\ IF op.fault = "offline" THEN End("error")
     ELSE IF todo = {} THEN End("ok")
     ELSE \E w \in todo :
       IF op.fault \in {"missing", "cut"} /\ op.at = w.p.id THEN End("error")
       ELSE IF Gate(w) THEN todo' = todo \ {w} /\ UNCHANGED <<local, pc, tmp>> /\ Same
       ELSE /\ pc' = "write" /\ todo' = {w} \cup {x \in todo : x # w} /\ tmp' = [w |-> w, n |-> 0] /\ UNCHANGED local /\ Same
Write ==
  /\ pc = "write"
  /\ LET w == tmp.w
         put(v, t) == [x \in DOMAIN local \cup {w.at} |-> IF x = w.at THEN [v |-> v, t |-> t, mode |-> 1] ELSE local[x]] IN
     \/ /\ tmp.n < Full /\ ~(op.fault = "full" /\ w.m.big /\ tmp.n = 1)
        /\ tmp' = [tmp EXCEPT !.n = @ + 1] /\ local' = (IF Design = "in place" THEN put(100 * w.m.v + tmp.n, Now) ELSE local) /\ UNCHANGED <<pc, todo>> /\ Same
     \/ op.fault = "full" /\ w.m.big /\ tmp.n = 1 /\ End("error")
     \/ /\ tmp.n = Full /\ local' = put(w.m.v, IF Design = "no stamp" THEN Now ELSE w.m.t)
        /\ todo' = todo \ {w} /\ tmp' = 0 /\ pc' = "next" /\ Same
Next == Publish \/ Edit \/ Start \/ Next1 \/ Write
Spec == Init /\ [][Next]_vars /\ WF_vars(Next1 \/ Write)
Ran == pc = "idle" /\ status # ""
Last == IF hist = <<>> THEN "" ELSE hist[Len(hist)].f
(* a run that ends well leaves what the law says; one that fails leaves each file old or new *)
Lawful == (Ran /\ Last = "run") =>
  IF status = "ok" THEN local = want
  ELSE /\ DOMAIN local \subseteq DOMAIN want /\ DOMAIN before \subseteq DOMAIN local
       /\ \A at \in DOMAIN local : local[at] = want[at] \/ (at \in DOMAIN before /\ local[at] = before[at])
FaultsStrike == (Ran /\ Last = "run") => (status = "error" <=> Strikes(op, remote, before))
(* at every moment all files are whole *)
Whole == \A at \in DOMAIN local : local[at].v < 100
Confined == \A at \in DOMAIN local : ".." \notin {at[k] : k \in 1 .. Len(at)}
(* a second run has nothing to write *)
Settles == (Ran /\ Last = "run" /\ status = "ok") => Writes(op, remote, local) = {}
Ends == (pc # "idle") ~> (pc = "idle")
Emit == (EmitOn /\ pc = "idle" /\ Len(hist) = MaxLen) => CSVWrite("%1$s", <<ToJson([hist |-> hist])>>, IOEnv.OUT)
=============================================================================
