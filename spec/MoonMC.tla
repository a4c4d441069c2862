------------------------------- MODULE MoonMC -------------------------------
(* Moon and Sun on their ways: the four arguments advance by steps of 15 degrees *)
(* (a twenty-fourth of a turn) in any order.                                      *)
EXTENDS Moon, TLC, Json, IOUtils, CSV
CONSTANTS Steps, EmitOn, WrongSign
VARIABLES l, M, F, D
vars == <<l, M, F, D>>
Sine == <<0, 2588, 5000, 7071, 8660, 9659, 10000, 9659, 8660, 7071, 5000, 2588, 0, -2588, -5000, -7071, -8660, -9659, -10000, -9659, -8660, -7071, -5000, -2588>>
Sn(k) == Sine[(k % 24) + 1]
Cs(k) == Sn(k + 6)
Turns(tab, a) == [i \in 1 .. Len(tab) |-> tab[i][1] * a[1] + tab[i][2] * a[2] + tab[i][3] * a[3] + tab[i][4] * a[4]]
OfSine(tab, a) == LET g == Turns(tab, a) IN Series(tab, [i \in 1 .. Len(tab) |-> Sn(g[i])])
OfCosine(tab, a) == LET g == Turns(tab, a) IN Series(tab, [i \in 1 .. Len(tab) |-> Cs(g[i])])
Long == IF WrongSign THEN [i \in 1 .. Len(Longitude) |-> IF i = 11 THEN [Longitude[11] EXCEPT ![5] = -@] ELSE Longitude[i]] ELSE Longitude
Init == l = 0 /\ M = 0 /\ F = 0 /\ D = 0
Adv(x, n) == (x + n) % 24
Next == \E n \in Steps :
   \/ (l' = Adv(l, n) /\ UNCHANGED <<M, F, D>>)
   \/ (M' = Adv(M, n) /\ UNCHANGED <<l, F, D>>)
   \/ (F' = Adv(F, n) /\ UNCHANGED <<l, M, D>>)
   \/ (D' = Adv(D, n) /\ UNCHANGED <<l, M, F>>)
Spec == Init /\ [][Next]_vars
A == <<l, M, F, D>>
Back == <<-l, -M, -F, -D>>
(* time reversed: longitude and latitude are odd, the distance is even *)
Odd == /\ OfSine(Longitude, A) + OfSine(Longitude, Back) \in -2 .. 2 /\ OfSine(Latitude, A) + OfSine(Latitude, Back) \in -2 .. 2
       /\ OfCosine(Distance, A) = OfCosine(Distance, Back)
(* the plane of the orbit mirrors: half a turn of the node changes the side, nothing else *)
Mirror == LET h == <<l, M, F + 12, D>> IN
       /\ OfSine(Longitude, A) = OfSine(Longitude, h) /\ OfCosine(Distance, A) = OfCosine(Distance, h)
       /\ OfSine(Latitude, A) + OfSine(Latitude, h) \in -2 .. 2
(* bounds of the motion *)
Bounded == /\ OfSine(Longitude, A) \in -30500 .. 30500 /\ OfSine(Latitude, A) \in -19200 .. 19200
           /\ Mean + OfCosine(Distance, A) \in 355500 .. 410500
(* nearest at the perigee, farthest at the apogee of every month *)
Apsides == OfCosine(Distance, <<0, M, F, D>>) < OfCosine(Distance, <<12, M, F, D>>) - 25000
(* the short table is the greater one, rounded *)
Rounded == l = 0 =>
           /\ \A i \in 1 .. Len(Long) : LET g == InTable(GreatLongitude, Long[i], -1) IN
                (g * 36) \div 10000 - Long[i][5] \in -3 .. 3
           /\ \A i \in 1 .. Len(Distance) : LET g == InTable(GreatDistance, Distance[i], 1) IN g \div 1000 - Distance[i][5] \in -2 .. 2
Emit == (EmitOn /\ A = <<0, 0, 0, 0>>) => CSVWrite("%1$s", <<ToJson([longitude |-> Longitude, latitude |-> Latitude, bend |-> Bend, distance |-> Distance,
          sunlongitude |-> SunLongitude, sundistance |-> SunDistance, polynomials |-> Polynomials])>>, IOEnv.OUT)
=============================================================================
