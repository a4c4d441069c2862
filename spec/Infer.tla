-------------------------------- MODULE Infer --------------------------------
(* Inference of minor constituents.  Bands with their majors (how many of them    *)
(* are needed) and the minors each band can infer.  The set that contributes is    *)
(* a function of the supplied and the requested names only.                        *)
EXTENDS Integers, Sequences, FiniteSets
ShortMajors == {"q1", "o1", "p1", "k1", "n2", "m2", "s2", "k2", "2n2"}
ShortMinors == {"2q1", "sigma1", "rho1", "m1b", "m1", "chi1", "pi1", "phi1", "theta1", "j1", "oo1",
                "2n2", "mu2", "nu2", "lambda2", "l2", "l2b", "t2", "eps2", "eta2"}
FesOnly == {"eps2", "eta2"}          \* no admittance outside FES: inferred as zero
SemiMajors == {"n2", "m2", "s2"}
SemiMinors == {"eps2", "2n2", "mu2", "nu2", "gamma2", "alpha2", "beta2", "delta2", "lambda2", "l2", "t2", "r2", "k2", "eta2"}
DiurMajors == {"q1", "o1", "k1"}
DiurMinors == {"2q1", "sigma1", "rho1", "tau1", "beta1", "m1a", "m1b", "chi1", "pi1", "p1", "psi1", "phi1",
               "theta1", "j1", "so1", "oo1", "ups1"}
LongMajors == {"node", "mm", "mf"}
LongMinors == {"sa", "ssa", "sta", "msm", "msf", "mst", "mt", "msqm", "mq"}
Bands(conv) == (IF conv = "GOT" THEN {<<SemiMajors, 3, SemiMinors>>, <<DiurMajors, 3, DiurMinors>>}
                ELSE {<<ShortMajors, 6, ShortMinors>>}) \cup {<<LongMajors, 3, LongMinors>>}
Enough(b, sup) == Cardinality(b[1] \cap sup) >= b[2]
AllMinors(conv) == UNION {b[3] : b \in Bands(conv)}
(* all = nothing was requested explicitly *)
Effective(conv, sup, req, all) ==
   UNION {IF Enough(b, sup) THEN (b[3] \ sup) \cap (IF all THEN b[3] ELSE req) ELSE {} : b \in Bands(conv)}
Refused(conv, sup) == \E b \in Bands(conv) : ~Enough(b, sup)
MajorsOf(conv) == UNION {b[1] : b \in Bands(conv)}
MajorsFor(conv, m) == UNION {IF m \in b[3] THEN b[1] ELSE {} : b \in Bands(conv)}
(* published admittances of the short-period band, in 1e-5: minor |-> <<major, weight>> *)
ShortAdm(fes) == [m \in ShortMinors |->
  CASE m = "2q1" -> << <<"q1", 26300>>, <<"o1", -2520>> >>
    [] m = "sigma1" -> << <<"q1", 29700>>, <<"o1", -2640>> >>
    [] m = "rho1" -> << <<"q1", 16400>>, <<"o1", 480>> >>
    [] m = "m1b" -> << <<"o1", 1400>>, <<"k1", 1010>> >>
    [] m = "m1" -> << <<"o1", 3890>>, <<"k1", 2820>> >>
    [] m = "chi1" -> << <<"o1", 640>>, <<"k1", 600>> >>
    [] m = "pi1" -> << <<"o1", 300>>, <<"k1", 1710>> >>
    [] m = "phi1" -> << <<"o1", -150>>, <<"k1", 1520>> >>
    [] m = "theta1" -> << <<"o1", -650>>, <<"k1", 1550>> >>
    [] m = "j1" -> << <<"o1", -3890>>, <<"k1", 8360>> >>
    [] m = "oo1" -> << <<"o1", -4310>>, <<"k1", 6130>> >>
    [] m = "2n2" -> << <<"n2", 26400>>, <<"m2", -2530>> >>
    [] m = "mu2" -> IF fes THEN << <<"k2", 6944>>, <<"n2", 35154>>, <<"m2", -4628>> >> ELSE << <<"n2", 29800>>, <<"m2", -2640>> >>
    [] m = "nu2" -> IF fes THEN << <<"k2", -610>>, <<"n2", 15688>>, <<"m2", 676>> >> ELSE << <<"n2", 16500>>, <<"m2", 487>> >>
    [] m = "lambda2" -> IF fes THEN << <<"k2", 1650>>, <<"n2", -1331>>, <<"m2", 775>> >> ELSE << <<"m2", 400>>, <<"s2", 740>> >>
    [] m = "l2" -> << <<"m2", 1310>>, <<"s2", 3260>> >>
    [] m = "l2b" -> IF fes THEN << <<"k2", 7714>>, <<"n2", -5165>>, <<"m2", 2787>> >> ELSE << <<"m2", 330>>, <<"s2", 820>> >>
    [] m = "t2" -> IF fes THEN << <<"k2", 18048>>, <<"n2", -2010>>, <<"m2", 833>> >> ELSE << <<"s2", 5850>> >>
    [] m = "eps2" -> IF fes THEN << <<"2n2", 53285>>, <<"n2", -3304>> >> ELSE << >>
    [] m = "eta2" -> IF fes THEN << <<"m2", -349>>, <<"k2", 8317>> >> ELSE << >> ]
Weight5(fes, m, M) == LET a == ShortAdm(fes)[m]
                          s == {i \in 1 .. Len(a) : a[i][1] = M}
                      IN IF s = {} THEN 0 ELSE a[CHOOSE i \in s : TRUE][2]
(* equilibrium amplitudes in 1e-6 of the bands inferred through the frequency-      *)
(* dependent admittance                                                              *)
EqAmp == [c \in SemiMajors \cup SemiMinors \cup DiurMajors \cup DiurMinors \cup LongMajors \cup LongMinors |->
  CASE c = "n2" -> 121006 [] c = "m2" -> 631931 [] c = "s2" -> 294019
    [] c = "eps2" -> 4669 [] c = "2n2" -> 16011 [] c = "mu2" -> 19316 [] c = "nu2" -> 22983 [] c = "gamma2" -> 1902
    [] c = "alpha2" -> 2178 [] c = "beta2" -> 1921 [] c = "delta2" -> 714 [] c = "lambda2" -> 4662 [] c = "l2" -> 17862
    [] c = "t2" -> 17180 [] c = "r2" -> 2463 [] c = "k2" -> 79924 [] c = "eta2" -> 4467
    [] c = "q1" -> 50184 [] c = "o1" -> 262163 [] c = "k1" -> 368731
    [] c = "2q1" -> 6638 [] c = "sigma1" -> 8023 [] c = "rho1" -> 9540 [] c = "tau1" -> 3430 [] c = "beta1" -> 1941
    [] c = "m1a" -> 20604 [] c = "m1b" -> 7420 [] c = "chi1" -> 3925 [] c = "pi1" -> 7125 [] c = "p1" -> 122008
    [] c = "psi1" -> 2929 [] c = "phi1" -> 5247 [] c = "theta1" -> 3966 [] c = "j1" -> 20618 [] c = "so1" -> 3417
    [] c = "oo1" -> 11293 [] c = "ups1" -> 2157
    [] c = "node" -> 27929 [] c = "mm" -> 35184 [] c = "mf" -> 66607
    [] c = "sa" -> 4922 [] c = "ssa" -> 30988 [] c = "sta" -> 1809 [] c = "msm" -> 6728 [] c = "msf" -> 5837
    [] c = "mst" -> 2422 [] c = "mt" -> 12753 [] c = "msqm" -> 2037 [] c = "mq" -> 1687 ]
=============================================================================
