-------------------------------- MODULE TimeTrace --------------------------------
EXTENDS Time, TraceLib
VARIABLE l
TolMs == 2
(* days and milliseconds close to an instant *)
At(r, days, ms) == LET d == days - r.mjd IN d \in -1 .. 1 /\ Near(d * 86400000 + ms, r.sod * 1000, r.tol)
Failing(r) ==
  IF r.status # "ok" THEN {"CallCompletes"}
  ELSE CASE r.kind = "path" ->
              Violated({ <<"SameInstant", IF r.rep = "cal"
                              THEN /\ r.y \in 1500 .. 2200 /\ r.mo \in 1 .. 12 /\ r.d \in 1 .. 31
                                   /\ At(r, ToMjd(r.y, r.mo, r.d), r.ms)
                              ELSE At(r, r.days, r.ms)>>,
                         <<"FieldsInRange", r.rep # "cal" \/ (r.h \in 0 .. 23 /\ r.mi \in 0 .. 59 /\ r.sms >= -r.tol /\ r.sms <= 60000 + r.tol)>> })
         [] r.kind = "std" -> Violated({ <<"OtherStandard", At(r, r.days, r.ms)>> })
         [] r.kind = "decimal" -> Violated({ <<"DecimalYear", LET c == FromMjd(r.mjd) IN r.y = c[1] /\
                 LET d == r.day - (Doy(c[1], c[2], c[3]) - 1) IN d \in -1 .. 1 /\ Near(d * 86400000 + r.ms, r.sod * 1000, 200)>> })
         [] r.kind = "months" -> Violated({ <<"DaysOfMonths", r.days = [m \in 1 .. 12 |-> MonthLen(r.y, m)]>> })
         [] r.kind = "units" -> Violated({ <<"UnitsOfText", \E u \in DOMAIN UnitNames : r.unit \in UnitNames[u] /\ r.factor = UnitSec[u] /\ r.name = r.unit>>,
                                           <<"EpochOfText", r.epoch = r.want /\ r.epoch2 = r.want>> })
         [] r.kind = "bare" -> Violated({ <<"EpochOfText", r.epoch = r.want /\ r.factor = 0>> })
         [] r.kind = "error" -> Violated({ <<"Refused", r.raised>> })
         [] r.kind = "unix" -> Violated({ <<"UnixTime", r.days = r.mjd - 40587 /\ r.secs = r.sod>>, <<"IsoFormat", r.iso>> })
         [] r.kind = "wrap" -> Violated({ <<"DeprecatedGivesReplacement", r.same>>, <<"ArgumentsForwarded", r.forwarded>> })
         [] r.kind = "driver" -> Violated({ <<"SameInstantInDriver", Near(r.val, r.ref, r.tol)>> })
TraceInit == l = 1
TraceNext == l <= Len(Trace) /\ Report(l, Failing(Trace[l])) /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_l
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
