-------------------------------- MODULE Reader --------------------------------
(* The longitude pipeline of the readers as a step machine over the columns of *)
(* a model grid:                                                               *)
(*    file columns -> crop to a window -> extend across the seam -> stagger    *)
(*    -> bring the query into the convention of the columns -> locate the cell *)
(* and the law it has to obey: the columns (and weights) used for a query are  *)
(* those of the uncropped, periodic lattice, whatever the window, the grid's   *)
(* first longitude, and the convention (number of turns) of the query.         *)
(* Positions are in quarter cells, P quarter cells to a turn.                  *)
EXTENDS Integers, Sequences, FiniteSets
(* g: [W columns, p0 first position, P, dup repeated meridian] *)
Glob(g) == 4 * g.W = g.P
Cols(g) == [i \in 1 .. g.W + (IF g.dup THEN 1 ELSE 0) |-> [p |-> g.p0 + 4 * (i - 1), s |-> ((i - 1) % g.W) + 1]]
Uniq(g) == SubSeq(Cols(g), 1, g.W)
Shifted(g, c) == [i \in 1 .. g.W |-> [p |-> Uniq(g)[i].p + c, s |-> i]]
First(s) == s[1].p
Last(s) == s[Len(s)].p
-----------------------------------------------------------------------------
(* crop to the window [lo, hi] (any convention), always with the surrounding nodes *)
Crop(g, lo, hi, pad) ==
  LET in(s) == SelectSeq(s, LAMBDA c : c.p >= lo - pad /\ c.p <= hi + pad)
      T == <<in(Shifted(g, -g.P)), in(Shifted(g, 0)), in(Shifted(g, g.P))>>
      all == T[1] \o T[2] \o T[3]
      used == {k \in 1 .. 3 : T[k] # <<>>}
  IN IF hi - lo + 2 * pad >= g.P \/ (~Glob(g) /\ Cardinality(used) > 1) \/ Len(all) < 2 THEN Cols(g) ELSE all
(* columns across the seam of a grid that goes round exactly once *)
Extend(g, s) == IF Last(s) - First(s) = g.P - 4
                THEN <<[p |-> First(s) - 4, s |-> s[Len(s)].s]>> \o s \o <<[p |-> Last(s) + 4, s |-> s[1].s]>>
                ELSE s
Seam(g, s) == Last(s) - First(s) = g.P - 4
(* west neighbours of the columns: what a staggered (u) node is computed from *)
West(g, s) == [i \in 1 .. Len(s) |-> IF i > 1 THEN s[i - 1].s ELSE IF Seam(g, s) THEN s[Len(s)].s ELSE s[1].s]
Stagger(g, s) == [i \in 1 .. Len(s) |-> [p |-> s[i].p - 2, s |-> <<West(g, s)[i], s[i].s>>]]
Wrap(g, s, q) == LET a == IF q < First(s) THEN q + g.P ELSE q IN IF a > Last(s) THEN a - g.P ELSE a
Locate(s, q) == IF q < First(s) \/ q > Last(s) THEN {}
  ELSE LET i == CHOOSE i \in 1 .. Len(s) : s[i].p <= q /\ (i = Len(s) \/ q < s[i + 1].p)
           f == q - s[i].p
       IN {<<s[i].s, 4 - f>>} \cup (IF f = 0 THEN {} ELSE {<<s[i + 1].s, f>>})
-----------------------------------------------------------------------------
(* the law: the periodic lattice *)
WestOf(g, i) == IF i > 1 THEN i - 1 ELSE IF Glob(g) THEN g.W ELSE 1
Node(g, t, i) == IF t = "u" THEN <<WestOf(g, i), i>> ELSE i
Law(g, t, q) ==
  LET o == g.p0 - (IF t = "u" THEN 2 ELSE 0)  x == (q - o) % g.P
  IN IF ~Glob(g) /\ x > 4 * (g.W - 1) THEN {}
     ELSE LET i == x \div 4  f == x % 4
          IN {<<Node(g, t, (i % g.W) + 1), 4 - f>>} \cup (IF f = 0 THEN {} ELSE {<<Node(g, t, ((i + 1) % g.W) + 1), f>>})
=============================================================================
