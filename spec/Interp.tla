-------------------------------- MODULE Interp --------------------------------
(* Exact (rational) semantics of interpolation on a rectangular grid.          *)
(* A grid has nx * ny nodes; node (i, j) (0-based column, row) sits at lattice *)
(* position (i * D, j * D), so that query points between the nodes are         *)
(* integers too.  Values are integers, the result is a rational num/den with   *)
(* den = 0 standing for "no valid value".                                      *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANT D

At(s, nx, i, j) == s[j * nx + i + 1]              \* row-major, 1-based storage
AbsI(x) == IF x < 0 THEN -x ELSE x
MaxI(a, b) == IF a > b THEN a ELSE b
Inside(nx, ny, x, y) == x >= 0 /\ y >= 0 /\ x <= (nx - 1) * D /\ y <= (ny - 1) * D

RECURSIVE SumOver(_, _)
SumOver(f, S) == IF S = {} THEN 0
                 ELSE LET e == CHOOSE e \in S : TRUE IN f[e] + SumOver(f, S \ {e})

Nodes(nx, ny) == (0 .. nx - 1) \X (0 .. ny - 1)
(* the hat function of a node: the ideal, cell-free definition *)
Hat(n, x, y) == MaxI(0, D - AbsI(x - n[1] * D)) * MaxI(0, D - AbsI(y - n[2] * D))
Support(nx, ny, x, y) == {n \in Nodes(nx, ny) : Hat(n, x, y) > 0}

(* bilinear: invalid nodes are left out and the weights renormalised *)
Ideal(z, m, nx, ny, x, y) ==
  IF ~Inside(nx, ny, x, y) THEN <<0, 0>>
  ELSE LET S == {n \in Support(nx, ny, x, y) : ~At(m, nx, n[1], n[2])}
           w == [n \in S |-> Hat(n, x, y)]
           wz == [n \in S |-> Hat(n, x, y) * At(z, nx, n[1], n[2])]
       IN <<SumOver(wz, S), SumOver(w, S)>>

(* regular-grid linear: every supporting node must be valid *)
Strict(z, m, nx, ny, x, y) ==
  IF ~Inside(nx, ny, x, y) THEN <<0, 0>>
  ELSE LET S == Support(nx, ny, x, y)
           w == [n \in S |-> Hat(n, x, y)]
           wz == [n \in S |-> Hat(n, x, y) * At(z, nx, n[1], n[2])]
       IN IF \E n \in S : At(m, nx, n[1], n[2]) THEN <<0, 0>>
          ELSE <<SumOver(wz, S), SumOver(w, S)>>

(* candidates of nearest-node selection inside the enclosing cell *)
NearCols(nx, x) == {i \in 0 .. nx - 1 : \A k \in 0 .. nx - 1 : AbsI(x - i * D) <= AbsI(x - k * D)}
NearRows(ny, y) == {j \in 0 .. ny - 1 : \A k \in 0 .. ny - 1 : AbsI(y - j * D) <= AbsI(y - k * D)}
Nearest(nx, ny, x, y) == IF ~Inside(nx, ny, x, y) THEN {} ELSE NearCols(nx, x) \X NearRows(ny, y)

(* ---- the implementation's route: locate a cell, weigh its corners ---------- *)
Cells(n, v) == {i \in 0 .. n - 2 : i * D <= v /\ v <= (i + 1) * D}
Corner(c, k) == <<c[1] + (IF k \in {1, 3} THEN 1 ELSE 0), c[2] + (IF k \in {2, 3} THEN 1 ELSE 0)>>
(* weight of corner k is the area of the rectangle to the opposite corner *)
Weight(c, k, x, y) == LET o == Corner(c, 3 - k) IN AbsI(x - o[1] * D) * AbsI(y - o[2] * D)
=============================================================================
