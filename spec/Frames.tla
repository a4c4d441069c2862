------------------------------- MODULE Frames -------------------------------
(* Coordinate frames on an ellipsoid with exact axes A, B (metres).  Positions *)
(* of the exact lattice have latitude -90, 0 or 90, longitude a multiple of 90 *)
(* and an integer height, so every frame has integer coordinates there:        *)
(*   "geod" <<lon, lat, h>>    "cart" <<x, y, z>>   "sphere" <<lon, lat, r>>     *)
(*   "enu"  <<e, n, u>> about an origin <<lon0, lat0, h0>> of the same lattice   *)
EXTENDS Integers, Sequences
CONSTANTS A, B
Cos4(d) == LET k == (d \div 90) % 4 IN <<1, 0, -1, 0>>[k + 1]
Sin4(d) == LET k == (d \div 90) % 4 IN <<0, 1, 0, -1>>[k + 1]
Lons == {-90, 0, 90, 180, 270}
Lats == {-90, 0, 90}
(* N + h is only ever multiplied by cos(lat) = 0 at the poles *)
Cart(g) == << (A + g[3]) * Cos4(g[2]) * Cos4(g[1]),
              (A + g[3]) * Cos4(g[2]) * Sin4(g[1]),
              IF g[2] = 0 THEN 0 ELSE (B + g[3]) * Sin4(g[2]) >>
LonOf(x, y) == IF x > 0 THEN 0 ELSE IF x < 0 THEN 180 ELSE IF y > 0 THEN 90 ELSE IF y < 0 THEN 270 ELSE 0
Absv(v) == IF v < 0 THEN -v ELSE v
SgnOf(v) == IF v < 0 THEN -1 ELSE IF v > 0 THEN 1 ELSE 0
OnAxis(c) == (c[1] # 0 /\ c[2] = 0 /\ c[3] = 0) \/ (c[1] = 0 /\ c[2] # 0 /\ c[3] = 0) \/ (c[1] = 0 /\ c[2] = 0 /\ c[3] # 0)
Geod(c) == IF c[3] # 0 THEN <<0, 90 * SgnOf(c[3]), Absv(c[3]) - B>>
           ELSE <<LonOf(c[1], c[2]), 0, Absv(c[1]) + Absv(c[2]) - A>>
Sphere(c) == IF c[3] # 0 THEN <<0, 90 * SgnOf(c[3]), Absv(c[3])>>
             ELSE <<LonOf(c[1], c[2]), 0, Absv(c[1]) + Absv(c[2])>>
FromSphere(s) == <<s[3] * Cos4(s[2]) * Cos4(s[1]), s[3] * Cos4(s[2]) * Sin4(s[1]), s[3] * Sin4(s[2])>>
(* rows: east, north, up *)
Rot(o) == << <<-Sin4(o[1]), Cos4(o[1]), 0>>,
             <<-(Sin4(o[2]) * Cos4(o[1])), -(Sin4(o[2]) * Sin4(o[1])), Cos4(o[2])>>,
             << Cos4(o[2]) * Cos4(o[1]), Cos4(o[2]) * Sin4(o[1]), Sin4(o[2])>> >>
Dot(a, b) == a[1] * b[1] + a[2] * b[2] + a[3] * b[3]
Sub(a, b) == <<a[1] - b[1], a[2] - b[2], a[3] - b[3]>>
Add(a, b) == <<a[1] + b[1], a[2] + b[2], a[3] + b[3]>>
ToENU(c, o) == LET d == Sub(c, Cart(o)) R == Rot(o) IN <<Dot(R[1], d), Dot(R[2], d), Dot(R[3], d)>>
FromENU(e, o) == LET R == Rot(o) IN
     Add(Cart(o), [k \in 1 .. 3 |-> R[1][k] * e[1] + R[2][k] * e[2] + R[3][k] * e[3]])
(* azimuth clockwise from north and elevation of a lattice direction, where they *)
(* are multiples of 45 degrees                                                  *)
Azimuth(e) == CASE e[1] = 0 /\ e[2] > 0 -> 0   [] e[1] > 0 /\ e[1] = e[2] -> 45
                [] e[1] > 0 /\ e[2] = 0 -> 90  [] e[1] > 0 /\ e[1] = -e[2] -> 135
                [] e[1] = 0 /\ e[2] < 0 -> 180 [] e[1] < 0 /\ e[1] = e[2] -> 225
                [] e[1] < 0 /\ e[2] = 0 -> 270 [] e[1] < 0 /\ e[1] = -e[2] -> 315 [] OTHER -> -1
Elevation(e) == CASE e[3] = 0 -> 0 [] e[1] = 0 /\ e[2] = 0 -> 90 * SgnOf(e[3])
                [] (e[1] = 0 \/ e[2] = 0) /\ Absv(e[1]) + Absv(e[2]) = Absv(e[3]) -> 45 * SgnOf(e[3]) [] OTHER -> -999
(* the position a state stands for *)
Denote(frame, v, o) == CASE frame = "geod" -> Cart(v) [] frame = "cart" -> v
                         [] frame = "sphere" -> FromSphere(v) [] OTHER -> FromENU(v, o)
=============================================================================
