-------------------------------- MODULE Moon --------------------------------
(* Low-precision theory of the Moon and the Sun (Montenbruck and Pfleger).      *)
(* Rows are multiples of l (anomaly of the Moon), M (anomaly of the Sun),       *)
(* F (argument of latitude), D (elongation) and an amplitude.                    *)
EXTENDS Integers, Sequences
(* sines, arc seconds *)
Longitude == << <<1, 0, 0, 0, 22640>>, <<2, 0, 0, 0, 769>>, <<1, 0, 0, -2, -4586>>, <<0, 0, 0, 2, 2370>>, <<0, 1, 0, 0, -668>>,
   <<0, 0, 2, 0, -412>>, <<2, 0, 0, -2, -212>>, <<1, 1, 0, -2, -206>>, <<1, 0, 0, 2, 192>>, <<0, 1, 0, -2, -165>>,
   <<1, -1, 0, 0, 148>>, <<0, 0, 0, 1, -125>>, <<1, 1, 0, 0, -110>>, <<0, 0, 2, -2, -55>> >>
(* sines, arc seconds; the first is taken at F with the inequality of the longitude and Bend added *)
Latitude == << <<0, 0, 1, 0, 18520>>, <<0, 0, 1, -2, -526>>, <<1, 0, 1, -2, 44>>, <<-1, 0, 1, -2, -31>>, <<-2, 0, 1, 0, -25>>,
   <<0, 1, 1, -2, -23>>, <<-1, 0, 1, 0, 21>>, <<0, -1, 1, -2, 11>> >>
Bend == << <<0, 0, 2, 0, 412>>, <<0, 1, 0, 0, 541>> >>
(* cosines, kilometres, about the mean *)
Mean == 385000
Distance == << <<1, 0, 0, 0, -20905>>, <<-1, 0, 0, 2, -3699>>, <<0, 0, 0, 2, -2956>>, <<2, 0, 0, 0, -570>>, <<2, 0, 0, -2, 246>>,
   <<0, 1, 0, -2, -205>>, <<1, 0, 0, 2, -171>>, <<1, 1, 0, -2, -152>> >>
(* the Sun: anomaly; arc seconds and thousand kilometres *)
SunLongitude == << <<0, 1, 0, 0, 6892>>, <<0, 2, 0, 0, 72>> >>
SunMean == 149619
SunDistance == << <<0, 1, 0, 0, -2499>>, <<0, 2, 0, 0, -21>> >>
(* polynomials of the arguments in centuries, degrees *)
Polynomials == [ s |-> <<"218.3164477", "481267.88123421", "-1.5786e-3", "1.855835e-6", "-1.53388e-8">>,
   D |-> <<"297.8501921", "445267.1114034", "-1.8819e-3", "1.83195e-6", "-8.8445e-9">>,
   N |-> <<"125.04452", "-1934.136261", "2.0708e-3", "2.22222e-6">>,
   M |-> <<"357.5256", "35999.049">>, l |-> <<"134.96292", "477198.86753">>,
   Ms |-> <<"357.5256", "35999.049", "-1.559e-4", "-4.8e-7">>, pp |-> <<"282.94", "1.7192">>, e |-> <<"23.43929111">> ]
(* the greater theory (Meeus, tables 47.A and 47.B): 1e-6 degrees, metres; l, M, F, D *)
GreatLongitude == << <<1, 0, 0, 0, 6288774>>, <<-1, 0, 0, 2, 1274027>>, <<0, 0, 0, 2, 658314>>, <<2, 0, 0, 0, 213618>>, <<0, 1, 0, 0, -185116>>,
   <<0, 0, 2, 0, -114332>>, <<-2, 0, 0, 2, 58793>>, <<-1, -1, 0, 2, 57066>>, <<1, 0, 0, 2, 53322>>, <<0, -1, 0, 2, 45758>>,
   <<-1, 1, 0, 0, -40923>>, <<0, 0, 0, 1, -34720>>, <<1, 1, 0, 0, -30383>>, <<0, 0, -2, 2, 15327>> >>
GreatDistance == << <<1, 0, 0, 0, -20905355>>, <<-1, 0, 0, 2, -3699111>>, <<0, 0, 0, 2, -2955968>>, <<2, 0, 0, 0, -569925>>,
   <<-2, 0, 0, 2, 246158>>, <<0, -1, 0, 2, -204586>>, <<1, 0, 0, 2, -170733>>, <<-1, -1, 0, 2, -152138>> >>
Reversed(t) == [i \in 1 .. 4 |-> -t[i]]
Args(t) == SubSeq(t, 1, 4)
(* amplitude of the row t in a table: sines are odd, cosines are even *)
InTable(tab, t, sgn) ==
   LET P == {i \in 1 .. Len(tab) : Args(tab[i]) = Args(t)} R == {i \in 1 .. Len(tab) : Args(tab[i]) = Reversed(t)} IN
   IF P # {} THEN tab[CHOOSE i \in P : TRUE][5] ELSE IF R # {} THEN sgn * tab[CHOOSE i \in R : TRUE][5] ELSE 0
RECURSIVE SumTo(_, _, _)
SumTo(tab, w, i) == IF i = 0 THEN 0 ELSE tab[i][5] * w[i] + SumTo(tab, w, i - 1)
(* w: values of the functions times 10000 *)
Series(tab, w) == SumTo(tab, w, Len(tab)) \div 10000
=============================================================================
