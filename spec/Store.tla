-------------------------------- MODULE Store --------------------------------
(* Model files as stores of a content.  A content c has                        *)
(*   nx, ny, xlim, ylim (outer limits, in eighths), dt (eighths),              *)
(*   iob (sequence of pairs), dep, wet (row by row), cons (names),             *)
(*   val[k][n] = <<re, im>> (elevations) or <<re u, im u, re v, im v>>         *)
(* OTIS files are explicit sequences of four-byte words in Fortran records:    *)
(*   <<"i", integer>>, <<"f", eighths>>, <<"s", four characters>>              *)
(* The law of every format: Decode(Encode(c)) = c, whatever formats were       *)
(* passed on the way, whether files hold one constituent or all of them.       *)
EXTENDS Integers, Sequences, FiniteSets, TLC
I(v) == <<"i", v>>
F(v) == <<"f", v>>
Pad(name) == SubSeq(name \o "    ", 1, 4)
S(name) == <<"s", Pad(name)>>
Rec(ws) == <<I(4 * Len(ws))>> \o ws \o <<I(4 * Len(ws))>>
RECURSIVE Cat(_)
Cat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Cat(Tail(ss))
Map(s, Op(_)) == [k \in 1 .. Len(s) |-> Op(s[k])]
Nodes(c) == c.nx * c.ny
Wide(c) == IF c.uv THEN 4 ELSE 2
Bug(design, name, right, wrong) == IF design = name THEN wrong ELSE right
-----------------------------------------------------------------------------
(* writers *)
GridWords(c, design) ==
  Rec(<<I(c.nx), I(c.ny), F(c.ylim[1]), F(c.ylim[2]), F(c.xlim[1]), F(c.xlim[2]), F(c.dt), I(Len(c.iob))>>)
  \o (IF c.iob = <<>> THEN Rec(<<I(0)>>) ELSE Rec(Cat([k \in 1 .. Len(c.iob) |-> <<I(c.iob[k][1]), I(c.iob[k][2])>>])))
  \o Bug(design, "depth twice", Rec(Map(c.dep, LAMBDA d : F(8 * d))),
         LET w == Map(c.dep, LAMBDA d : F(8 * d)) IN <<I(4 * Nodes(c))>> \o w \o w \o <<I(4 * Nodes(c))>>)
  \o Rec(Map(c.wet, LAMBDA w : I(w)))
(* the constituents ks (indices, in the order of the file) *)
ConWords(c, ks, design) ==
  Rec(<<I(c.nx), I(c.ny), I(Len(ks)), F(c.ylim[1]), F(c.ylim[2]), F(c.xlim[1]), F(c.xlim[2])>>
      \o [k \in 1 .. Len(ks) |-> S(c.cons[ks[k]])])
  \o Cat([k \in 1 .. Len(ks) |->
       Rec(Cat([n \in 1 .. Nodes(c) |-> LET v == c.val[ks[k]][n] IN
            [p \in 1 .. Wide(c) |-> F(8 * v[Bug(design, "parts apart", p, IF c.uv THEN <<1, 3, 2, 4>>[p] ELSE p)])]]))])
Fits(c) == \A k \in 1 .. Len(c.cons) : Len(c.cons[k]) <= 4
-----------------------------------------------------------------------------
(* readers: fixed places in the words *)
At(w, k) == w[k][2]
Trim(s) == LET n == CHOOSE n \in 0 .. 4 : (n = 0 \/ SubSeq(s, n, n) # " ") /\ \A m \in n + 1 .. 4 : SubSeq(s, m, m) = " " IN SubSeq(s, 1, n)
GridOf(w) ==
  LET nx == At(w, 2)  ny == At(w, 3)  nob == At(w, 9)
      a == 10 + 1 + (IF nob = 0 THEN 1 ELSE 2 * nob) + 2
      b == a + nx * ny + 2
  IN [nx |-> nx, ny |-> ny, ylim |-> <<At(w, 4), At(w, 5)>>, xlim |-> <<At(w, 6), At(w, 7)>>, dt |-> At(w, 8),
      iob |-> [k \in 1 .. nob |-> <<At(w, 10 + 2 * k), At(w, 11 + 2 * k)>>],
      dep |-> [n \in 1 .. nx * ny |-> At(w, a + n) \div 8], wet |-> [n \in 1 .. nx * ny |-> At(w, b + n)]]
NamesOf(w) == [k \in 1 .. At(w, 4) |-> Trim(At(w, 8 + k))]
(* constituent number k of the file *)
ConOf(w, k, uv) ==
  LET nx == At(w, 2)  ny == At(w, 3)  nc == At(w, 4)  p == IF uv THEN 4 ELSE 2
      a == 8 + nc + 2 + (k - 1) * (p * nx * ny + 2)
  IN [n \in 1 .. nx * ny |-> [q \in 1 .. p |-> At(w, a + (n - 1) * p + q) \div 8]]
-----------------------------------------------------------------------------
(* formats of one file per constituent: arrays with dry nodes left out; names in *)
(* as many characters as they have (design "four letters": cut)                  *)
CellsOf(c, k, by) == [n \in 1 .. Nodes(c) |-> IF c.wet[n] = 0 THEN <<>> ELSE c.val[k][n]]
Short(name) == IF Len(name) > 4 THEN SubSeq(name, 1, 4) ELSE name
-----------------------------------------------------------------------------
(* what goes through a format comes back; regions are cut by whole cells *)
Dry(c) == [c EXCEPT !.val = [k \in 1 .. Len(c.cons) |-> [n \in 1 .. Nodes(c) |-> IF c.wet[n] = 0 THEN [p \in 1 .. Wide(c) |-> 0] ELSE c.val[k][n]]]]
Seq1(n) == [k \in 1 .. n |-> k]
Cut(c, r) ==          \* r: first and last column, first and last row
  LET nx == r[2] - r[1] + 1  ny == r[4] - r[3] + 1
      dx == (c.xlim[2] - c.xlim[1]) \div c.nx  dy == (c.ylim[2] - c.ylim[1]) \div c.ny
      From(n) == LET i == (n - 1) % nx  j == (n - 1) \div nx IN (r[3] + j - 1) * c.nx + r[1] + i
  IN [c EXCEPT !.nx = nx, !.ny = ny,
       !.xlim = <<c.xlim[1] + (r[1] - 1) * dx, c.xlim[1] + r[2] * dx>>, !.ylim = <<c.ylim[1] + (r[3] - 1) * dy, c.ylim[1] + r[4] * dy>>,
       !.dep = [n \in 1 .. nx * ny |-> c.dep[From(n)]], !.wet = [n \in 1 .. nx * ny |-> c.wet[From(n)]],
       !.val = [k \in 1 .. Len(c.cons) |-> [n \in 1 .. nx * ny |-> c.val[k][From(n)]]]]
(* the content after one format; "refused" when names do not fit *)
Through(c, op, design) ==
  CASE op.f = "otis" -> IF ~Fits(c) THEN c ELSE
         LET g == GridOf(GridWords(c, design))  w == ConWords(c, Seq1(Len(c.cons)), design) IN
         [c EXCEPT !.nx = g.nx, !.ny = g.ny, !.xlim = g.xlim, !.ylim = g.ylim, !.dt = g.dt, !.iob = g.iob, !.dep = g.dep, !.wet = g.wet,
                   !.cons = NamesOf(w), !.val = [k \in 1 .. Len(c.cons) |-> ConOf(w, k, c.uv)]]
    [] op.f = "split" -> IF ~Fits(c) THEN c ELSE
         LET w == [k \in 1 .. Len(c.cons) |-> ConWords(c, <<k>>, design)] IN
         [c EXCEPT !.cons = [k \in 1 .. Len(c.cons) |-> NamesOf(w[k])[1]], !.val = [k \in 1 .. Len(c.cons) |-> ConOf(w[Bug(design, "first file", k, 1)], 1, c.uv)]]
    [] op.f \in {"atlas", "fes", "got"} ->
         [c EXCEPT !.cons = [k \in 1 .. Len(c.cons) |-> IF op.f = "atlas" THEN Bug(design, "four letters", c.cons[k], Short(c.cons[k])) ELSE c.cons[k]],
                   !.val = [k \in 1 .. Len(c.cons) |-> LET cells == CellsOf(c, k, op.f) IN
                             [n \in 1 .. Nodes(c) |-> IF cells[n] = <<>> THEN [p \in 1 .. Wide(c) |-> 0] ELSE cells[n]]]]
    [] op.f = "reduce" -> Cut(c, op.r)
=============================================================================
