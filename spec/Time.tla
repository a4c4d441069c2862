---------------------------------- MODULE Time ----------------------------------
(* Instants of UTC and their representations.  An instant is a modified Julian  *)
(* day and a second of that day; representations are                           *)
(*   "cal"    <<y, m, d, second of day>>  calendar fields (and dates as text)     *)
(*   "delta"  <<days, seconds>> since the midnight of an epoch, in some unit      *)
(*   "mjd"    <<day, second>>  modified (or plain) Julian days, datetime64        *)
EXTENDS Driver
CONSTANT Design
Leap(y) == IF Design = "every fourth" THEN y % 4 = 0 ELSE (y % 4 = 0 /\ y % 100 # 0) \/ y % 400 = 0
MonthLen(y, m) == IF m = 2 THEN (IF Leap(y) THEN 29 ELSE 28) ELSE IF m \in {4, 6, 9, 11} THEN 30 ELSE 31
YearLen(y) == IF Leap(y) THEN 366 ELSE 365
(* days before the first of the month, from a year starting in March *)
Mp(m) == (m + 9) % 12
Yp(y, m) == IF m <= 2 THEN y - 1 ELSE y
Cent(y) == IF Design = "every fourth" THEN 0 ELSE (y \div 100) - (y \div 400)
ToMjd(y, m, d) == LET yy == Yp(y, m) IN 365 * yy + (yy \div 4) - Cent(yy) + ((153 * Mp(m) + 2) \div 5) + d - 1 - 678881
(* back: the year by estimate and correction, then the month *)
FromMjd(n) == LET yest == 1858 + ((n - 44) \div 366)
                  ys == {y \in yest - 3 .. yest + 3 : ToMjd(y, 1, 1) <= n /\ n < ToMjd(y + 1, 1, 1)}
                  y == CHOOSE z \in ys : TRUE
                  m == CHOOSE k \in 1 .. 12 : ToMjd(y, k, 1) <= n /\ n < ToMjd(y, k, 1) + MonthLen(y, k)
              IN <<y, m, n - ToMjd(y, m, 1) + 1>>
Doy(y, m, d) == ToMjd(y, m, d) - ToMjd(y, 1, 1) + 1
UnitNames == [s |-> {"seconds", "second", "sec", "secs", "s"}, m |-> {"minutes", "minute", "min", "mins"},
              h |-> {"hours", "hour", "hr", "hrs", "h"}, d |-> {"days", "day", "d"}]
UnitSec == [s |-> 1, m |-> 60, h |-> 3600, d |-> 86400]
=============================================================================
