-------------------------------- MODULE Codes --------------------------------
(* Doodson, Cartwright and extended (XDO) codes of a coefficient vector.        *)
(* A vector is <<tau, s, h, p, n, pp, k>>; Cartwright uses the first six.        *)
EXTENDS Integers, Sequences, FiniteSets
Digits(v) == [i \in 1 .. 6 |-> IF i = 1 THEN v[1] ELSE v[i] + 5]
DoodsonRep(v) == \A i \in 1 .. 6 : Digits(v)[i] \in 0 .. 11
Plain(v) == \A i \in 1 .. 6 : Digits(v)[i] \in 0 .. 9
Pow(i) == <<100000, 10000, 1000, 100, 10, 1>>[i]
(* plain numbers in thousandths: 255.555 is 255555 *)
Number(v) == LET d == Digits(v) IN d[1]*100000 + d[2]*10000 + d[3]*1000 + d[4]*100 + d[5]*10 + d[6]
NumChars == <<"0","1","2","3","4","5","6","7","8","9","X","E">>
Text(v) == LET d == Digits(v)  c == [i \in 1 .. 6 |-> NumChars[d[i] + 1]]
           IN <<c[1], c[2], c[3], ".", c[4], c[5], c[6]>>
CharVal(c) == (CHOOSE i \in 1 .. 12 : NumChars[i] = c) - 1
FromText(t) == LET c == SelectSeq(t, LAMBDA x : x # ".")
               IN [i \in 1 .. 6 |-> CharVal(c[i]) - (IF i = 1 THEN 0 ELSE 5)]
FromNumber(n) == [i \in 1 .. 6 |-> ((n \div Pow(i)) % 10) - (IF i = 1 THEN 0 ELSE 5)]
(* extended: one letter per coefficient, R..Y = -8..-1, Z = 0, A..P = 1..16 *)
XChars == <<"R","S","T","U","V","W","X","Y","Z","A","B","C","D","E","F","G","H","I","J","K","L","M","N","O","P">>
XRep(v) == \A i \in 1 .. 7 : v[i] \in -8 .. 16
XText(v) == [i \in 1 .. 7 |-> XChars[v[i] + 9]]
FromX(t) == [i \in 1 .. Len(t) |-> (CHOOSE j \in 1 .. 25 : XChars[j] = t[i]) - 9]
Six(v) == SubSeq(v, 1, 6)
=============================================================================
