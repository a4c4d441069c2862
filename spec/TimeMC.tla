--------------------------------- MODULE TimeMC ---------------------------------
(* (1) a walk over the calendar, day by day across century boundaries;           *)
(* (2) an instant carried through a path of conversions between representations. *)
EXTENDS Time, TLC, Json, IOUtils, CSV
CONSTANTS EmitOn, MaxLen, Span
VARIABLES mode, day, ymd, inst, rep, val, hist
vars == <<mode, day, ymd, inst, rep, val, hist>>
Starts == {1599, 1699, 1799, 1899, 1999, 2099}
Epochs == << <<1992, 1, 1>>, <<1970, 1, 1>>, <<2000, 1, 1>>, <<1858, 11, 17>>, <<1900, 1, 1>>, <<1985, 1, 1>>, <<2018, 1, 1>>, <<1980, 1, 6>> >>
EDay(e) == ToMjd(Epochs[e][1], Epochs[e][2], Epochs[e][3])
(* days beside century boundaries, leap days, leap seconds and epochs *)
Days == {ToMjd(1600, 2, 29), ToMjd(1600, 3, 1), ToMjd(1700, 2, 28), ToMjd(1700, 3, 1), ToMjd(1799, 12, 31), ToMjd(1800, 3, 1), ToMjd(1858, 11, 16),
         ToMjd(1858, 11, 17), ToMjd(1900, 1, 1), ToMjd(1900, 2, 28), ToMjd(1900, 3, 1), ToMjd(1969, 12, 31), ToMjd(1972, 6, 30), ToMjd(1972, 7, 1),
         ToMjd(1980, 1, 6), ToMjd(1981, 6, 30), ToMjd(1981, 7, 1), ToMjd(1991, 12, 31), ToMjd(1992, 1, 1), ToMjd(1992, 2, 29), ToMjd(1998, 12, 31), ToMjd(1999, 1, 1),
         ToMjd(1999, 12, 31), ToMjd(2000, 1, 1), ToMjd(2000, 2, 28), ToMjd(2000, 2, 29), ToMjd(2000, 3, 1), ToMjd(2000, 12, 31), ToMjd(2015, 6, 30), ToMjd(2015, 7, 1),
         ToMjd(2016, 12, 31), ToMjd(2017, 1, 1), ToMjd(2018, 1, 1), ToMjd(2024, 2, 29), ToMjd(2024, 12, 31), ToMjd(2100, 2, 28), ToMjd(2100, 3, 1)}
Secs == {0, 1, 21600, 43200, 64801, 86399}
Insts == Days \X Secs
(* epochs of the standards that count every second: not themselves at a leap second *)
StdEpochs == {1, 3, 7, 8}
Std == {"GPS", "TAI", "LORAN"}
InstRec(i) == LET c == FromMjd(i[1]) IN
   [kind |-> "inst", mjd |-> i[1], sod |-> i[2], ymd |-> c, doy |-> Doy(c[1], c[2], c[3]), dpy |-> YearLen(c[1]),
    delta |-> [e \in 1 .. Len(Epochs) |-> i[1] - EDay(e)], since1980 |-> i[1] >= 44244,
    leap |-> [e \in 1 .. Len(Epochs) |-> Leaps(i[1]) - Leaps(EDay(e))], dayleaps |-> Leaps(i[1] + 1) - Leaps(i[1] - 1)]
Init == \/ /\ mode = "walk" /\ \E y \in Starts : ymd = <<y, 1, 1>> /\ day = ToMjd(y, 1, 1)
           /\ inst = <<day, 0>> /\ rep = "" /\ val = <<>> /\ hist = <<>>
        \/ /\ mode = "inst" /\ inst \in Insts /\ ymd = <<>> /\ day = 0 /\ rep = "" /\ val = <<>> /\ hist = <<>>
        \/ /\ mode = "path" /\ inst = <<57754, 64801>> /\ ymd = <<>> /\ day = 0 /\ hist = <<>>
           /\ rep \in {"cal", "mjd"} \cup {"delta"}
           /\ val = (CASE rep = "cal" -> <<FromMjd(57754), 64801>> [] rep = "mjd" -> <<57754, 64801>> [] rep = "delta" -> <<1, 57754 - EDay(1), 64801>>)
Walk == /\ mode = "walk" /\ day < inst[1] + Span /\ day' = day + 1
        /\ ymd' = (IF ymd[3] < MonthLen(ymd[1], ymd[2]) THEN <<ymd[1], ymd[2], ymd[3] + 1>>
                   ELSE IF ymd[2] < 12 THEN <<ymd[1], ymd[2] + 1, 1>> ELSE <<ymd[1] + 1, 1, 1>>)
        /\ UNCHANGED <<mode, inst, rep, val, hist>>
To(r, v, op) == rep' = r /\ val' = v /\ hist' = Append(hist, op) /\ UNCHANGED <<mode, day, ymd, inst>>
Op(f, e, u) == [f |-> f, e |-> e, u |-> u]
Units == {"s", "m", "h", "d"}
CalOps == /\ rep = "cal"
          /\ LET n == ToMjd(val[1][1], val[1][2], val[1][3]) IN
             \/ \E e \in 1 .. Len(Epochs), u \in {"s", "d"} : To("delta", <<e, n - EDay(e), val[2]>>, Op("convert_calendar_dates", e, u))
             \/ \E f \in 0 .. 6 : To("cal", val, Op("text", f, ""))
             \/ To("mjd", <<n, val[2]>>, Op("from_calendar", 0, ""))
             \/ To("mjd", <<n, val[2]>>, Op("datetime64", 0, ""))
DeltaOps == /\ rep = "delta"
            /\ \/ \E e \in 1 .. Len(Epochs), u \in Units : To("delta", <<e, val[2] + EDay(val[1]) - EDay(e), val[3]>>, Op("convert_delta_time", e, u))
               \/ \E u \in {"", "text"} : To("mjd", <<val[2] + EDay(val[1]), val[3]>>, Op("from_deltatime", 0, u))
MjdOps == /\ rep = "mjd"
          /\ \/ To("cal", <<FromMjd(val[1]), val[2]>>, Op("convert_julian", 0, ""))
             \/ To("cal", <<FromMjd(val[1]), val[2]>>, Op("to_calendar", 0, ""))
             \/ \E e \in 1 .. Len(Epochs) : To("delta", <<e, val[1] - EDay(e), val[2]>>, Op("convert_datetime", e, "s"))
             \/ \E e \in 1 .. Len(Epochs), u \in {"s", "d"} : To("delta", <<e, val[1] - EDay(e), val[2]>>, Op("to_deltatime", e, u))
             \/ To("mjd", val, Op("to_datetime", 0, ""))
             \/ To("mjd", val, Op("from_datetime", 0, ""))
Convert == mode = "path" /\ Len(hist) < MaxLen /\ (CalOps \/ DeltaOps \/ MjdOps)
Spec == Init /\ [][Walk \/ Convert]_vars
CalendarInverse == mode = "walk" => ToMjd(ymd[1], ymd[2], ymd[3]) = day /\ FromMjd(day) = ymd
SameInstant == mode = "path" => CASE rep = "cal" -> ToMjd(val[1][1], val[1][2], val[1][3]) = inst[1] /\ val[2] = inst[2]
                                  [] rep = "mjd" -> val = inst
                                  [] rep = "delta" -> EDay(val[1]) + val[2] = inst[1] /\ val[3] = inst[2]
(* nine known days *)
Known == mode = "inst" => ToMjd(1858, 11, 17) = 0 /\ ToMjd(1992, 1, 1) = 48622 /\ ToMjd(2000, 1, 1) = 51544 /\ ToMjd(1970, 1, 1) = 40587 /\ ToMjd(2018, 1, 1) = 58119
Emit == EmitOn => CASE mode = "inst" -> CSVWrite("%1$s", <<ToJson(InstRec(inst))>>, IOEnv.OUT)
                    [] mode = "path" /\ Len(hist) > 0 -> CSVWrite("%1$s", <<ToJson([kind |-> "path", first |-> IF hist[1].f \in {"convert_calendar_dates", "text", "from_calendar", "datetime64"} THEN "cal"
                              ELSE IF hist[1].f \in {"convert_delta_time", "from_deltatime"} THEN "delta" ELSE "mjd", hist |-> hist])>>, IOEnv.OUT)
                    [] OTHER -> TRUE
=============================================================================
