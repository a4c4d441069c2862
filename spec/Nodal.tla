-------------------------------- MODULE Nodal --------------------------------
(* Algebra of tidal constituents.  A compound is a vector of integer weights over *)
(* the parents: its coefficients and phase corrections are the weighted sums, its  *)
(* amplitude factor the product of |weight|-th powers of those of the parents      *)
(* (solar parents s2, t2, r2, p1 are taken as unmodulated in compounds).           *)
EXTENDS NodalTable, FiniteSets
NP == Len(Parents)
Solar == {"s2", "t2", "r2", "p1"}
AbsN(x) == IF x < 0 THEN -x ELSE x
RECURSIVE SumN(_)
SumN(s) == IF s = <<>> THEN 0 ELSE Head(s) + SumN(Tail(s))
CompIdx == [n \in {Compounds[i][1] : i \in 1 .. Len(Compounds)} |-> CHOOSE i \in 1 .. Len(Compounds) : Compounds[i][1] = n]
IsCompound(n) == n \in DOMAIN CompIdx
Weights(n) == Compounds[CompIdx[n]][2]
Modelled(n, conv) == IF conv = "perth3" THEN Compounds[CompIdx[n]][4] ELSE Compounds[CompIdx[n]][3]
ParentIdx == [n \in {Parents[i][1] : i \in 1 .. NP} |-> CHOOSE i \in 1 .. NP : Parents[i][1] = n]
Unit(i) == [j \in 1 .. NP |-> IF i = j THEN 1 ELSE 0]
WeightsOf(n) == IF n \in DOMAIN ParentIdx THEN Unit(ParentIdx[n]) ELSE Weights(n)
Coef(n) == [k \in 1 .. 7 |-> SumN([j \in 1 .. NP |-> WeightsOf(n)[j] * Parents[j][2][k]])]
(* weights that modulate *)
ModW(n) == [j \in 1 .. NP |-> IF Parents[j][1] \in Solar THEN 0 ELSE WeightsOf(n)[j]]
(* f in logarithms, u in angle: both linear *)
LnF(n, lf) == SumN([j \in 1 .. NP |-> AbsN(ModW(n)[j]) * lf[j]])
U(n, u) == SumN([j \in 1 .. NP |-> ModW(n)[j] * u[j]])
Order(n) == SumN([j \in 1 .. NP |-> AbsN(WeightsOf(n)[j])])
SpeedIdx == [n \in {Speeds[i][1] : i \in 1 .. Len(Speeds)} |-> CHOOSE i \in 1 .. Len(Speeds) : Speeds[i][1] = n]
Speed(n) == Speeds[SpeedIdx[n]][2]
=============================================================================
