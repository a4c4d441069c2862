------------------------------ MODULE Modulation ------------------------------
(* The nodal modulation of the constituents that have one of their own, as the    *)
(* published expansions of each convention:                                       *)
(*   "O"  OTIS, ATLAS, TMD3, netcdf (Schureman/Foreman series of the OTIS package) *)
(*   "F"  FES (Schureman's closed forms in the obliquity I of the lunar orbit)     *)
(*   "P"  perth3 (Ray), where it has a form of its own; otherwise "G"              *)
(*   "G"  GOT and all others (perth5, Ray)                                        *)
(* A series is <<constant, list of <<harmonic, sine, cosine>> >>, coefficients in  *)
(* 1e-5: f sin u = sum of sines, f cos u = constant + sum of cosines.              *)
EXTENDS Integers, Sequences
Sq(x) == x * x
(* harmonics: 1 N  2 2N  3 2P  4 2P-N  5 P  6 P-N  7 2(N-P)  8 3N                  *)
Ser(k, t) == [k |-> "series", c0 |-> k, t |-> t]
(* amplitude and phase by separate expansions: f = k + sum of cosines (1e-5),      *)
(* u = sum of sines (1e-3 degrees)                                                *)
Sep(k, t) == [k |-> "sep", c0 |-> k, t |-> t]
(* amplitude of one series, phase in degrees / phase of another series *)
Mix(k, t, d) == [k |-> "mix", c0 |-> k, t |-> t, d |-> d]
Two(k, t, j, s) == [k |-> "two", c0 |-> k, t |-> t, e0 |-> j, s |-> s]
(* a closed form of Schureman: its name, and u = a xi + b nu *)
Sch(n, a, b) == [k |-> "sch", n |-> n, a |-> a, b |-> b]
None == Ser(100000, <<>>)
O == "O"  F == "F"  P == "P"  G == "G"
(* as perth2 has it: the sine of 2N in the cosine sum of the phase *)
Perth2 == [k |-> "perth2", c0 |-> 100000, t |-> << <<1, 18900, 18900>>, <<2, -580, -580>> >>]
MfDeg == Sep(104300, << <<1, -23700, 41400>>, <<2, 2700, 0>>, <<8, -400, 0>> >>)
Table == <<
 <<{O}, {"msf", "tau1", "p1", "theta1", "lambda2", "s2"}, None>>,
 <<{F, P}, {"p1", "s2"}, None>>,
 <<{O}, {"mm", "msm"}, Ser(100000, << <<1, 0, -13000>> >>)>>,
 <<{F}, {"mm", "msm"}, Sch("mm", 0, 0)>>,
 <<{G, P}, {"mm", "msm"}, Ser(100000, << <<3, -5340, -5340>>, <<4, -2190, -2190>>, <<1, 0, -13080>> >>)>>,
 <<{O}, {"mf", "msqm", "msp", "mq", "mtm"}, MfDeg>>,
 <<{F}, {"mf", "msqm", "msp", "mq", "mt", "mtm"}, Sch("mf", -2, 0)>>,
 <<{G, P}, {"mf", "msqm", "msp", "mq"}, Ser(100000, << <<3, -4324, 4324>>, <<1, -41465, 41465>>, <<2, -3873, 3873>> >>)>>,
 <<{O}, {"mt"}, Ser(100000, << <<1, -20300, 20300>>, <<2, -4000, 4000>> >>)>>,
 <<{G, P}, {"mt", "mtm"}, Ser(100000, << <<3, -1800, 1800>>, <<1, -41450, 41450>>, <<2, -4000, 4000>> >>)>>,
 <<{F}, {"msf"}, Sch("one", 2, -2)>>,
 <<{G, P}, {"msf"}, Ser(100000, << <<1, 13700, 0>> >>)>>,
 <<{O, F, G, P}, {"mst"}, Ser(100000, << <<3, -38000, 38000>>, <<1, -41300, 41300>>, <<2, -3700, 3700>> >>)>>,
 <<{O, F, G, P}, {"mfdw"}, MfDeg>>,
 <<{O}, {"o1", "so3", "op2"}, Mix(100000, << <<1, 18900, 18900>>, <<2, -580, -580>> >>, << <<1, 10800>>, <<2, -1300>>, <<8, 200>> >>)>>,
 <<{F}, {"o1", "so3", "op2", "2q1", "q1", "rho1", "sigma1"}, Sch("o1", 2, -1)>>,
 <<{P}, {"q1", "o1"}, Sep(100900, << <<1, 10800, 18700>>, <<2, -1300, -1500>> >>)>>,
 <<{G, P}, {"o1", "so3", "op2"}, Ser(100000, << <<1, 18860, 18860>>, <<2, -580, -580>>, <<3, -650, -650>> >>)>>,
 <<{O}, {"2q1", "q1", "rho1", "sigma1"}, Two(100000, << <<1, 18800, 18800>> >>, 100000, << <<1, 18900, 18900>> >>)>>,
 <<{G, P}, {"2q1", "q1", "rho1", "sigma1"}, Ser(100000, << <<1, 18860, 18860>> >>)>>,
 <<{F, G, P}, {"tau1"}, Ser(100000, << <<1, 21900, -21900>> >>)>>,
 <<{O, F, G, P}, {"beta1"}, Ser(100000, << <<1, 22600, 22600>> >>)>>,
 <<{O}, {"chi1"}, Ser(100000, << <<1, -22100, 22100>> >>)>>,
 <<{F}, {"chi1", "theta1", "j1"}, Sch("j1", 0, -1)>>,
 <<{G, P}, {"chi1"}, Ser(100000, << <<1, -25000, 19300>> >>)>>,
 <<{G}, {"p1"}, Ser(100000, << <<1, -1120, -1120>> >>)>>,
 <<{O}, {"k1", "sk3", "2sk5"}, Ser(100000, << <<1, -15540, 11580>>, <<2, 290, -290>> >>)>>,
 <<{F}, {"k1", "sk3", "2sk5"}, Sch("k1", 0, 0)>>,
 <<{P}, {"k1"}, Sep(100600, << <<1, -8900, 11500>>, <<2, 700, -900>> >>)>>,
 <<{G, P}, {"k1", "sk3", "2sk5"}, Ser(100000, << <<1, -15540, 11580>>, <<2, 310, -280>> >>)>>,
 <<{O}, {"j1"}, Ser(100000, << <<1, -22700, 16900>> >>)>>,
 <<{G, P}, {"j1", "theta1"}, Ser(100000, << <<1, -22700, 16900>> >>)>>,
 <<{O}, {"oo1", "ups1"}, Ser(100000, << <<1, -64000, 64000>>, <<2, -13400, 13400>> >>)>>,
 <<{F}, {"oo1", "ups1"}, Sch("oo1", -2, -1)>>,
 <<{G, P}, {"oo1", "ups1"}, Ser(100000, << <<1, -64000, 64000>>, <<2, -13400, 13400>>, <<3, -15000, 15000>> >>)>>,
 <<{F}, {"m2", "2n2", "mu2", "n2", "nu2", "lambda2", "ms4", "eps2", "2sm6", "2sn6", "mp1", "mp3", "sn4"}, Sch("m2", 2, -2)>>,
 <<{P}, {"m2", "n2"}, Sep(100000, << <<1, -2100, -3700>> >>)>>,
 <<{O, G, P}, {"m2", "2n2", "mu2", "n2", "nu2", "lambda2", "ms4", "eps2", "2sm6", "2sn6", "mp1", "mp3", "sn4"},
   Ser(100000, << <<1, -3731, -3731>>, <<2, 52, 52>> >>)>>,
 <<{O}, {"l2", "sl4"}, Ser(100000, << <<3, -25000, -25000>>, <<4, -11000, -11000>>, <<1, -4000, -4000>> >>)>>,
 <<{F}, {"l2", "sl4"}, Sch("l2", 2, -2)>>,
 <<{G, P}, {"l2", "sl4"}, Ser(100000, << <<3, -25000, -25000>>, <<4, -11000, -11000>>, <<1, -3700, -3700>> >>)>>,
 <<{O, F, G, P}, {"l2b"}, Ser(100000, << <<1, 44100, 44100>> >>)>>,
 <<{O}, {"k2", "sk4", "2sk6", "kp1"}, Ser(100000, << <<1, -31080, 28520>>, <<2, -3240, 3240>> >>)>>,
 <<{F}, {"k2", "sk4", "2sk6", "kp1"}, Sch("k2", 0, 0)>>,
 <<{P}, {"k2"}, Sep(102400, << <<1, -17700, 28600>>, <<2, 700, 800>> >>)>>,
 <<{G, P}, {"k2", "sk4", "2sk6", "kp1"}, Ser(100000, << <<1, -31080, 28530>>, <<2, -3240, 3240>> >>)>>,
 <<{O, F, G, P}, {"gamma2"}, Ser(100000, << <<7, 14700, 14700>> >>)>>,
 <<{O, F, G, P}, {"delta2"}, Ser(100000, << <<3, 50500, -50500>>, <<1, 50500, -50500>>, <<2, -16500, 16500>> >>)>>,
 <<{F}, {"eta2", "zeta2"}, Sch("eta2", 0, -2)>>,
 <<{O, G, P}, {"eta2", "zeta2"}, Ser(100000, << <<1, -43600, 43600>> >>)>>,
 <<{G}, {"s2"}, Ser(100000, << <<1, 225, 225>> >>)>>,
 <<{O, F, G, P}, {"m1'"}, Ser(100000, << <<1, -1815, -27837>> >>)>>,
 <<{O, F, G, P}, {"q1'"}, Ser(100000, << <<1, 39150, 39150>>, <<2, 3300, 3300>>, <<3, 6100, 6000>> >>)>>,
 <<{O, F, G, P}, {"j1'"}, Ser(100000, << <<1, -43800, 37200>>, <<2, -3300, 3300>> >>)>>,
 <<{O, F, G, P}, {"2n2'"}, Ser(100000, << <<1, 16600, 16600>> >>)>>,
 <<{O, F, G, P}, {"n2'"}, Ser(100000, << <<1, 17050, 17050>>, <<2, -350, -350>>, <<3, -1760, -1760>> >>)>>,
 <<{O, F, G, P}, {"l2'"}, Ser(100000, << <<1, -24950, 13150>> >>)>>,
 <<{F}, {"m3"}, Sch("m3", 3, -3)>>,
 <<{O, G, P}, {"m3"}, Ser(100000, << <<1, -5644, -5644>> >>)>>,
 <<{O, F, G, P}, {"e3"}, Ser(100000, << <<1, -5644, -5644>> >>)>>,
 <<{O, F, G, P}, {"j3", "f3"}, Ser(100000, << <<1, -46400, 38700>>, <<2, -5200, 5200>> >>)>>,
 <<{O, F, G, P}, {"l3"}, Ser(100000, << <<3, -37300, -37300>>, <<4, -16400, -16400>> >>)>>,
 (* tides of the Sun alone *)
 <<{O, F, G, P}, {"sa", "ssa", "sta", "s1", "pi1", "phi1", "psi1", "t2", "r2", "s3", "s4", "s5", "s6"}, None>> >>
M1Table == [Doodson |-> Ser(0, << <<5, 100000, 200000>>, <<6, 20000, 40000>> >>),
            Ray     |-> Ser(0, << <<5, 64000, 136000>>, <<6, 13500, 26700>> >>),
            perth5  |-> Ser(100000, << <<1, -22940, 17220>>, <<3, -35940, 35940>>, <<4, -6640, 6640>> >>)]
Names == UNION {Table[i][2] : i \in 1 .. Len(Table)}
(* first row that names the constituent in the class *)
RowsOf(cl, c) == {i \in 1 .. Len(Table) : cl \in Table[i][1] /\ c \in Table[i][2]}
Known(cl, c) == RowsOf(cl, c) # {}
FormOf(cl, c) == LET I == RowsOf(cl, c) IN Table[CHOOSE i \in I : \A m \in I : i <= m][3]
(* ---- minor constituents as the inference evaluates them: Doodson multiples of     *)
(* tau s h p n pp k and the series; FES and GOT replace some *)
Minor == <<
 <<"2q1", <<1, -3, 0, 2, 0, 0, -1>>, Perth2, Sch("o1", 2, -1)>>,
 <<"sigma1", <<1, -3, 2, 0, 0, 0, -1>>, Perth2, Sch("o1", 2, -1)>>,
 <<"rho1", <<1, -2, 2, -1, 0, 0, -1>>, Perth2, Sch("o1", 2, -1)>>,
 <<"m1b", <<1, 0, 0, -1, 0, 0, 1>>, Ser(100000, << <<1, 18500, 18500>> >>), Sch("o1", 2, -1)>>,
 <<"m1", <<1, 0, 0, 1, 0, 0, 1>>, Ser(100000, << <<1, -20100, 20100>> >>), Sch("j1", 0, -1)>>,
 <<"chi1", <<1, 0, 2, -1, 0, 0, 1>>, Ser(100000, << <<1, -22100, 22100>> >>), Sch("j1", 0, -1)>>,
 <<"pi1", <<1, 1, -3, 0, 0, 1, -1>>, None, None>>,
 <<"phi1", <<1, 1, 2, 0, 0, 0, 1>>, None, None>>,
 <<"theta1", <<1, 2, -2, 1, 0, 0, 1>>, None, None>>,
 <<"j1", <<1, 2, 0, -1, 0, 0, 1>>, Ser(100000, << <<1, -19800, 19800>> >>), Sch("j1", 0, -1)>>,
 <<"oo1", <<1, 3, 0, 0, 0, 0, 1>>, Ser(100000, << <<1, -64000, 64000>>, <<2, -13400, 13400>> >>), Sch("oo1", -2, -1)>>,
 <<"2n2", <<2, -2, 0, 2, 0, 0, 0>>, Ser(100000, << <<1, -3730, -3730>> >>), Sch("m2", 2, -2)>>,
 <<"mu2", <<2, -2, 2, 0, 0, 0, 0>>, Ser(100000, << <<1, -3730, -3730>> >>), Sch("m2", 2, -2)>>,
 <<"nu2", <<2, -1, 2, -1, 0, 0, 0>>, Ser(100000, << <<1, -3730, -3730>> >>), Sch("m2", 2, -2)>>,
 <<"lambda2", <<2, 1, -2, 1, 0, 0, 2>>, None, Sch("m2", 2, -2)>>,
 <<"l2", <<2, 1, 0, -1, 0, 0, 2>>, Ser(100000, << <<1, -3730, -3730>> >>), Sch("l2", 2, -2)>>,
 <<"l2b", <<2, 1, 0, 1, 0, 0, 0>>, Ser(100000, << <<1, -44100, 44100>> >>), Ser(100000, << <<1, -44100, 44100>> >>)>>,
 <<"t2", <<2, 2, -3, 0, 0, 1, 0>>, None, None>>,
 <<"eps2", <<2, -3, 2, 1, 0, 0, 0>>, None, Sch("m2", 2, -2)>>,
 <<"eta2", <<2, 3, 0, -1, 0, 0, 0>>, None, Sch("eta2", 0, -2)>> >>
MinorForm(cl, i) == IF cl = F THEN Minor[i][4]
                    ELSE IF cl = G /\ i = 19 THEN Minor[12][3]
                    ELSE IF cl = G /\ i = 20 THEN Ser(100000, << <<1, -43600, 43600>> >>)
                    ELSE Minor[i][3]
(* ---- evaluation at a basis b: b.s[k], b.c[k] sine and cosine (1e-4) of harmonic k; *)
(* sI cI sh ch of the obliquity I and its half (1e-4), xi and nu (1e-5 rad),         *)
(* s2q c2q of 2(P - xi) (1e-4) *)
RECURSIVE Sum(_, _, _, _)
Sum(t, i, j, v) == IF t = <<>> THEN 0 ELSE (t[1][j] * v[t[1][1]]) \div 10000 + Sum(Tail(t), i, j, v)
Sines(t, b) == Sum(t, 1, 2, b.s)
Cosines(k, t, b) == k + Sum(t, 1, 3, b.c)
Degrees(t, b) == Sum(t, 1, 2, b.s)          \* 1e-3 degrees
Rad(d) == (d * 17453) \div 10000              \* 1e-3 degrees to 1e-5 rad
(* Schureman, 1e-4 *)
Sin2I(b) == (2 * b.sI * b.cI) \div 10000
SinSq(b) == (b.sI * b.sI + 5000) \div 10000
ChSq(b) == (b.ch * b.ch + 5000) \div 10000
ShSq(b) == (b.sh * b.sh) \div 10000
Cos4(b) == (ChSq(b) * ChSq(b) + 5000) \div 10000
SchF2(n, b) ==      \* square of the factor, 1e-4
  LET S(x) == (x * x + 5000) \div 10000 IN
  CASE n = "one" -> 10000
    [] n = "mm"  -> S(((6667 - SinSq(b)) * 10000) \div 5021)
    [] n = "mf"  -> S((SinSq(b) * 10000) \div 1578)
    [] n = "o1"  -> S((b.sI * ChSq(b)) \div 3800)
    [] n = "j1"  -> S((Sin2I(b) * 10000) \div 7214)
    [] n = "oo1" -> S((b.sI * ((b.sh * b.sh) \div 1000)) \div 1640)
    [] n = "m2"  -> S((Cos4(b) * 10000) \div 9154)
    [] n = "m3"  -> S((((Cos4(b) * ChSq(b)) \div 10000) * 10000) \div 8758)
    [] n = "eta2" -> S((SinSq(b) * 10000) \div 1565)
    [] n = "k1"  -> (8965 * S(Sin2I(b))) \div 10000 + (6001 * ((Sin2I(b) * b.cnu) \div 10000)) \div 10000 + 1006
    [] n = "k2"  -> (19044 * S(SinSq(b))) \div 1000 + (27702 * ((SinSq(b) * b.c2nu) \div 10000)) \div 10000 + 981
    [] n = "l2"  -> LET t2 == (ShSq(b) * 10000) \div ChSq(b)
                        ra == 10000 - (12 * t2 * b.c2q) \div 10000 + (36 * S(t2))
                    IN (S((Cos4(b) * 10000) \div 9154) * ra) \div 10000
(* tangent of the further angle w of u = a xi + b nu - w, as numerator and denominator *)
SchW(n, b) ==
  CASE n = "k1" -> <<(Sin2I(b) * b.snu) \div 10000, (Sin2I(b) * b.cnu) \div 10000 + 3347>>
    [] n = "k2" -> <<(SinSq(b) * b.s2nu) \div 10000, (SinSq(b) * b.c2nu) \div 10000 + 727>>
    [] n = "l2" -> <<b.s2q, (10000 * ChSq(b)) \div (6 * ShSq(b)) - b.c2q>>
    [] OTHER -> <<0, 10000>>
=============================================================================
