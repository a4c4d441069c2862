----------------------------- MODULE ProgramsTrace -----------------------------
(* Recorded runs.  The files are carried from event to event: places in 1/10000    *)
(* degrees (modulo a turn), instants in seconds since 1992, values in the unit of   *)
(* the record; what the library answers for each place and instant comes with a run. *)
EXTENDS Programs, TraceLib
VARIABLES l, fs
NoCell == 777777777
At(x, e) == x
In(x, s) == x
Old(n) == IF n \in DOMAIN fs THEN fs[n] ELSE NoFile
Op(r) == [prog |-> r.prog, from |-> r.from, to |-> r.to, fmt |-> r.fmt, kind |-> r.okind, epoch |-> r.epoch, system |-> r.system, delta |-> r.delta]
Turn == 3600000
SamePlace(a, b) == LET d == Abs(a[1] - b[1]) IN (d <= 2 \/ Abs(d - Turn) <= 2) /\ Abs(a[2] - b[2]) <= 2
SameSeq(a, b, Same(_, _)) == Len(a) = Len(b) /\ \A k \in 1 .. Len(a) : Same(a[k], b[k])
Second(a, b) == Abs(a - b) <= 1
Value(tol, a, b) == IF a = NoCell \/ b = NoCell THEN a = b ELSE Abs(a - b) <= tol
(* cells the record has to show: the library's values by the law *)
Expected(r, f) == LET op == Op(r) IN Made(f, op, Places(f, op, In), Instants(f, op, At), LAMBDA v, p, t : <<v, p, t>>)
Wanted(r, f, v, k) == LET nt == Len(r.lib.times) IN r.lib.v[v][PlaceOf(f.kind, nt, k)][InstantOf(f.kind, nt, k)]
Clauses(r) ==
  CASE r.kind = "put" -> {}
    [] r.kind = "run" ->
         LET f == Old(r.from)
             op == Op(r)
             can == Runs(f, op) IN
         Violated({
           <<"Produced", can <=> r.made>>,
           <<"InputKept", r.inputkept>>,
           <<"NothingElse", r.others = 0>> }) \cup
         (IF ~(can /\ r.made) THEN {} ELSE
          LET ps == Places(f, op, In)
              ts == Instants(f, op, At)
              n == Count(f.kind, Len(ps), Len(ts)) IN
          Violated({
           <<"Oracle", SameSeq(r.lib.places, ps, SamePlace) /\ SameSeq(r.lib.times, ts, Second)>>,
           <<"Places", SameSeq(r.places, ps, SamePlace)>>,
           <<"Instants", r.hastimes => SameSeq(r.times, ts, Second)>>,
           <<"Shape", Len(r.cells) = Len(Vars(r.prog)) /\ \A v \in 1 .. Len(r.cells) : Len(r.cells[v]) = n>>,
           <<"Cells", \A v \in 1 .. Len(r.cells) : \A k \in 1 .. Len(r.cells[v]) : k <= n => Value(r.tol, r.cells[v][k], Wanted(r, f, v, k))>>,
           <<"FillValue", r.fillok>>,
           <<"Attributes", r.attok>>,
           <<"Permissions", r.mode = r.wantmode>> }))
    [] OTHER -> {"UnknownKind"}
Set(n, f) == [x \in DOMAIN fs \cup {n} |-> IF x = n THEN f ELSE fs[x]]
Next1(r) ==
  CASE r.kind = "put" -> (IF r.first THEN (r.name :> r.file) ELSE Set(r.name, r.file))
    [] r.kind = "run" -> IF Runs(Old(r.from), Op(r)) THEN Set(r.to, LET f == Old(r.from)
                                                                        op == Op(r) IN [Expected(r, f) EXCEPT !.cells = <<>>]) ELSE fs
    [] OTHER -> fs
TraceInit == l = 1 /\ fs = <<>>
TraceNext == l <= Len(Trace) /\ Report(l, Clauses(Trace[l])) /\ l' = l + 1 /\ fs' = Next1(Trace[l])
TraceSpec == TraceInit /\ [][TraceNext]_<<l, fs>>
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
