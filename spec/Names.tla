-------------------------------- MODULE Names --------------------------------
(* Recognising a constituent in a label: leftmost position, longest spelling;   *)
(* canonical names first, producers' abbreviations only when none is present.   *)
EXTENDS NamesTable, Integers, Sequences, FiniteSets
Range(s) == {s[i] : i \in 1 .. Len(s)}
Lower(c) == CASE c = "D" -> "d" [] c = "H" -> "h" [] c = "A" -> "a" [] c = "M" -> "m" [] c = "T" -> "t"
              [] c = "U" -> "u" [] c = "F" -> "f" [] c = "E" -> "e" [] c = "S" -> "s" [] c = "L" -> "l"
              [] c = "V" -> "v" [] c = "R" -> "r" [] OTHER -> c
Low(s) == [i \in 1 .. Len(s) |-> Lower(s[i])]
OccursAt(w, t, p) == /\ p + Len(w) - 1 <= Len(t) /\ \A k \in 1 .. Len(w) : t[p + k - 1] = w[k]
(* longest word of a set occurring at p; <<>> if none *)
LongestAt(W, t, p) ==
  LET M == {w \in W : OccursAt(w, t, p)} IN
  IF M = {} THEN <<>> ELSE CHOOSE w \in M : \A v \in M : Len(v) <= Len(w)
RECURSIVE Scan(_, _, _)
Scan(W, t, p) == IF p > Len(t) THEN <<>>
                 ELSE LET w == LongestAt(W, t, p) IN IF w # <<>> THEN w ELSE Scan(W, t, p + 1)
AbbrevWords == {Abbrev[i][1] : i \in 1 .. Len(Abbrev)}
Expand(a) == LET i == CHOOSE i \in 1 .. Len(Abbrev) : Abbrev[i][1] = a IN Abbrev[i][2]
(* nodal-degree marker: a prime directly after the name *)
Primed(t, w) == \E p \in 1 .. Len(t) : OccursAt(w, t, p) /\ p + Len(w) <= Len(t) /\ t[p + Len(w)] = "'"
(* abbreviations that end in a canonical name (del2, bet2, alp1, gam2) are words of their own *)
Enclosing == {a \in AbbrevWords : Scan(Range(Canonical), a, 1) # <<>>}
Recognise(label) ==
  LET t == Low(label)
      c == Scan(Range(Canonical) \cup Enclosing, t, 1)
  IN IF c \in Enclosing THEN Expand(c)
     ELSE IF c # <<>> THEN c
     ELSE LET a == Scan(AbbrevWords, t, 1) IN IF a # <<>> THEN Expand(a) ELSE <<>>
=============================================================================
