------------------------------ MODULE ExportTrace ------------------------------
EXTENDS Export, TraceLib
VARIABLE l
Clauses(r) ==
  CASE r.kind = "history" -> Violated({ <<"Independent", LET w == Wanted(r.hist) IN Len(w) = Len(r.vals) /\ \A i \in 1 .. Len(w) : r.vals[i] = w[i]>> })
    [] r.kind = "trip" -> Violated({ <<"SameAttributes", r.differ = <<>>>>, <<"Plain", r.plain>>, <<"ExportingChangesNothing", r.before = r.after>>, <<"SameFiles", r.files>>, <<"NothingUnset", r.fields>> })
    [] r.kind = "use" -> Violated({ <<"SameAnswers", r.names = r.names2 /\ Len(r.vals) = Len(r.vals2) /\ \A k \in 1 .. Len(r.vals) : Near(r.vals[k], r.vals2[k], 2)>> })
    [] r.kind = "definition" -> Violated({
         <<"Files", r.files = r.want>>, <<"ComponentsAgree", r.fv = r.fu>>, <<"Paths", r.paths>>, <<"Constituents", r.cons = r.consw>>, <<"Stream", r.left>> })
    [] r.kind = "refused" -> Violated({ <<"BrokenDefinitionsRefused", r.raised>> })
    [] OTHER -> {"UnknownKind"}
Failing(r) == IF r.status # "ok" THEN {"CallCompletes"} ELSE Clauses(r)
TraceInit == l = 1
TraceNext == l <= Len(Trace) /\ Report(l, Failing(Trace[l])) /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_l
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
