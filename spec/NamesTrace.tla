------------------------------ MODULE NamesTrace ------------------------------
EXTENDS Names, TraceLib
VARIABLE l
Expected(r) == LET w == Recognise(r.label) IN
               IF w # <<>> /\ Primed(Low(r.label), w) THEN w \o <<"'">> ELSE w
Failing(r) ==
  CASE r.ev = "parse" -> Violated({
         <<"RecognisedInAnySpelling", r.got = Expected(r)>>,
         <<"FailsWithoutName", (Expected(r) = <<>>) = (r.status = "ValueError")>>,
         <<"NameKnownToTables", (r.status = "ok" /\ Expected(r) # <<>>) => r.known>> })
    [] r.ev = "files" -> Violated({
         <<"FilesInOrder", r.status = "ok" /\ r.got = [i \in 1 .. Len(r.labels) |-> Recognise(r.labels[i])]>> })
    [] OTHER -> {"UnknownEvent"}
TraceInit == l = 1
TraceNext == l <= Len(Trace) /\ Report(l, Failing(Trace[l])) /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_l
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
