------------------------------- MODULE DriverMC -------------------------------
(* Every small request: the loops of the drivers write slabs of the output step *)
(* by step; the finished array has to be the layout's cell map.                  *)
EXTENDS Driver, TLC, Json, IOUtils, CSV
CONSTANTS Design, EmitOn
VARIABLES req, i, out
vars == <<req, i, out>>
Epochs == {40587, 46066, 48622, 51544, 44244}
Instants == << <<50500, 21600>>, <<50629, 43200>>, <<50630, 43200>>, <<53000, 0>>, <<53735, 64800>>, <<53736, 21600>>, <<57754, 5400>>, <<58849, 77777>>, <<42050, 43200>> >>
Stds == {"UTC", "GPS", "TAI", "LORAN", "datetime"}
Reqs == [layout : {"drift"}, dims : {<<1>>, <<2>>, <<5>>}, spell : 0 .. 4, epoch : Epochs, std : Stds]
        \cup [layout : {"time series"}, dims : {<<1, 1>>, <<1, 4>>, <<3, 2>>, <<2, 2>>}, spell : 0 .. 4, epoch : Epochs, std : Stds]
        \cup [layout : {"grid"}, dims : {<<1, 2, 1>>, <<2, 3, 2>>, <<3, 2, 1>>, <<2, 2, 3>>}, spell : 0 .. 4, epoch : Epochs, std : Stds]
Init == req \in Reqs /\ i = 0 /\ out = <<>>
D == req.dims
(* slabs: one instant of a grid, one station of a time series, all of a drift *)
Slabs == CASE req.layout = "grid" -> D[3] [] req.layout = "time series" -> D[1] [] OTHER -> 1
Slab(k) == CASE req.layout = "drift" -> [c \in 0 .. D[1] - 1 |-> <<c + 1, c + 1>>]
             [] req.layout = "time series" -> [c \in {k * D[2] + t : t \in 0 .. D[2] - 1} |->
                    <<k + 1, (IF Design = "one instant" THEN 1 ELSE (c % D[2]) + 1)>>]
             [] req.layout = "grid" -> [c \in {(y * D[2] + x) * D[3] + k : y \in 0 .. D[1] - 1, x \in 0 .. D[2] - 1} |->
                    LET p == c \div D[3]  y == p \div D[2]  x == p % D[2]
                    IN <<(IF Design = "transposed" THEN x * D[1] + y ELSE y * D[2] + x) + 1, k + 1>>]
Write == i < Slabs /\ i' = i + 1 /\ out' = Slab(i) @@ out /\ UNCHANGED req
Spec == Init /\ [][Write]_vars
Placed == i = Slabs => \A c \in 0 .. Prod(D) - 1 : c \in DOMAIN out /\ out[c] = <<PointOf(req.layout, D, c), InstOf(req.layout, D, c)>>
(* the numeric time of an instant determines it, whatever the epoch *)
TimesAgree == \A e1, e2 \in Epochs, s \in {"UTC", "GPS"} : \A d \in {51000, 53735, 53736, 58849} :
   LET a == Seconds(e1, s, d, 0)  b == Seconds(e2, s, d, 0) IN
   a.days + e1 = b.days + e2 /\ a.secs - b.secs = (IF s = "UTC" THEN 0 ELSE Leaps(e2) - Leaps(e1))
Emit == (EmitOn /\ i = 0) => CSVWrite("%1$s", <<ToJson(req @@ [when |-> [n \in 1 .. Len(Instants) |-> Seconds(req.epoch, req.std, Instants[n][1], Instants[n][2])]])>>, IOEnv.OUT)
=============================================================================
