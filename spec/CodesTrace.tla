------------------------------ MODULE CodesTrace ------------------------------
EXTENDS Codes, TraceLib
VARIABLE l
Err(s) == s = "ValueError"
Failing(r) ==
  CASE r.ev = "encode" -> Violated({
      <<"CartwrightIsTable", r.sc = "ok" /\ r.cart = Six(r.v)>>,
      <<"DoodsonNumber", IF ~DoodsonRep(r.v) THEN r.sd # "ok"
                         ELSE r.sd = "ok" /\ (IF Plain(r.v) THEN r.num = Number(r.v) ELSE r.txt = Text(r.v))>>,
      <<"ExtendedCode", IF ~XRep(r.v) THEN r.sx # "ok" ELSE r.sx = "ok" /\ r.xdo = XText(r.v)>>,
      <<"UnsupportedIsValueError", \A s \in {r.sd, r.sx, r.sc} : s \in {"ok", "ValueError"}>> })
    [] r.ev = "decode" -> Violated({
      <<"DecodeRoundTrip", r.st = "ok" /\ r.back = (CASE r.form = "number" -> FromNumber(r.num)
                                                     [] r.form \in {"text", "npstr", "short"} -> FromText(r.txt)
                                                     [] r.form = "xdo" -> FromX(r.txt)
                                                     [] OTHER -> <<>>)>> })
    [] r.ev = "list" -> Violated({
      <<"OneEntryPerName", r.st = "ok" /\ r.keys = r.asked>>,
      <<"SameAsSingle", r.st = "ok" /\ \A i \in 1 .. Len(r.same) : r.same[i]>>,
      <<"UnknownIsNone", r.st = "ok" /\ \A i \in 1 .. Len(r.asked) : (r.none[i] <=> r.unsup[i])>> })
    [] r.ev = "container" -> Violated({
      <<"ContainerCodes", r.st = "ok" /\ r.ok>> })
    [] OTHER -> {"UnknownEvent"}
TraceInit == l = 1
TraceNext == l <= Len(Trace) /\ Report(l, Failing(Trace[l])) /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_l
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
