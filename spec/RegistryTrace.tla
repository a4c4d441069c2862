---------------------------- MODULE RegistryTrace ----------------------------
EXTENDS Registry, TraceLib
VARIABLE l
SeqSet(s) == {s[k] : k \in 1 .. Len(s)}
Clauses(r) ==
  CASE r.kind = "entry" -> Violated({
         <<"Format", r.format \in Formats>>,
         <<"Name", r.name = r.asked>>,
         <<"Type", r.type = (IF r.what = "elevation" THEN "z" ELSE "u,v")>>,
         <<"Variable", r.variable \in Variables(r.what)>>,
         <<"VariableNames", r.products = Products(r.variable)>>,
         <<"Scale", Scaled(r.format) => r.scale \in Scales(r.format, r.what, r.variable)>>,
         <<"Corrections", r.corrections = Corrections(r.format) /\ r.fileformat = FileFormat(r.format)>>,
         <<"Grid", Gridded(r.format) <=> r.grid>>,
         <<"Projection", Projected(r.format) => r.projection>>,
         <<"Version", r.format \in {"FES-ascii", "FES-netcdf"} => r.version>>,
         <<"Inside", r.inside>>, <<"Exists", r.exists>>, <<"Distinct", r.distinct>>,
         <<"FilesOfEveryComponent", SeqSet(r.components) = (IF r.what = "elevation" THEN {"z"} ELSE IF r.format \in {"OTIS", "ATLAS-compact", "TMD3"} THEN {"u"} ELSE {"u", "v"})>>,
         <<"OneConstituentPerFile", r.perfile => Cardinality(SeqSet(r.consseq)) = r.files /\ ~("" \in SeqSet(r.consseq))>>,
         <<"ConstituentsOfFiles", r.format \in {"FES-ascii", "FES-netcdf"} => r.attr = r.consseq>>,
         <<"SameConstituents", r.what = "current" /\ "v" \in SeqSet(r.components) => r.consv = r.consseq>>,
         <<"Listed", r.listed>>, <<"Caller", r.clean>> })
    [] r.kind = "values" -> Violated({
         <<"Constituents", {r.names[k] : k \in 1 .. Len(r.names)} = {r.plant[k].c : k \in 1 .. Len(r.plant)} /\ Len(r.names) = Len(r.plant)>>,
         <<"ConstantsInUnits", \A k \in 1 .. Len(r.names) : \A j \in 1 .. Len(r.plant) :
              r.plant[j].c = r.names[k] => r.ok[k] /\ Near(r.re[k], r.plant[j].re, 2) /\ Near(r.im[k], r.plant[j].im, 2)>> })
    [] r.kind = "driver" -> Violated({ <<"CorrectionsOfTheProducer", Near(r.val, r.ref, 3)>> })
    [] r.kind = "look" ->
         LET d == Find(r.dbs, r.name) IN Violated({
         <<"FailsWithError", (d = "" \/ d \in SeqSet(r.missing)) => ~r.done>>,
         <<"Resolves", (d # "" /\ d \notin SeqSet(r.missing)) => r.done>>,
         <<"NothingStale", r.done => r.stale = <<>>>>,
         <<"Definition", r.done => r.got = d>> })
    [] r.kind = "answer" -> Violated({ <<"AnswersOfTheDefinition", r.good>> })
    [] r.kind = "merge" -> Violated({
         <<"NothingLost", SeqSet(r.names) = Names(r.dbs)>>,
         <<"LaterOverrides", \A k \in 1 .. Len(r.names) : r.from[k] = Find(r.dbs, r.names[k])>>, <<"Caller", r.clean>> })
    [] r.kind = "missing" -> Violated({ <<"FailsWithError", ~r.done>>, <<"NamesTheFile", r.named>> })
    [] r.kind = "lookup class" -> Violated({ <<"ListsByFormat", r.listed = r.expected>> })
    [] OTHER -> {"UnknownKind"}
Failing(r) == IF r.status # "ok" THEN {"CallCompletes"} ELSE Clauses(r)
TraceInit == l = 1
TraceNext == l <= Len(Trace) /\ Report(l, Failing(Trace[l])) /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_l
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
