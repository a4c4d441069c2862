------------------------------- MODULE StoreMC -------------------------------
EXTENDS Store, Json, IOUtils, CSV
CONSTANTS Design, EmitOn, MaxLen, BigOn
VARIABLES c, c0, hist
vars == <<c, c0, hist>>
Shapes == IF BigOn THEN {<<2, 3>>, <<3, 2>>, <<4, 3>>} ELSE {<<2, 2>>, <<3, 2>>}
NameSets == IF BigOn THEN {<<"m2">>, <<"k1", "m2", "eps2">>, <<"sigma1", "o1">>, <<"2n2", "m2">>} ELSE {<<"k1", "eps2">>, <<"sigma1">>}
Iobs == {<<>>, << <<1, 2>> >>, << <<1, 2>>, <<3, 1>> >>}
V(k, n, p) == LET v == ((37 * k + 11 * n + 5 * p) % 41) - 20 IN IF v >= 0 THEN v + 1 ELSE v
Content(s, names, iob, uv, pat) ==
  [nx |-> s[1], ny |-> s[2], xlim |-> <<80, 80 + 160 * s[1]>>, ylim |-> <<0 - 240, 160 * s[2] - 240>>, dt |-> 96, iob |-> iob, uv |-> uv,
   dep |-> [n \in 1 .. s[1] * s[2] |-> IF (n + pat) % 3 = 0 THEN 0 ELSE 100 + n], wet |-> [n \in 1 .. s[1] * s[2] |-> IF (n + pat) % 3 = 0 THEN 0 ELSE 1],
   cons |-> names, val |-> [k \in 1 .. Len(names) |-> [n \in 1 .. s[1] * s[2] |-> [p \in 1 .. (IF uv THEN 4 ELSE 2) |-> IF (n + pat) % 3 = 0 THEN 0 ELSE V(k, n, p)]]]]
Init == /\ hist = <<>>
        /\ c0 \in {Content(s, names, iob, uv, pat) : s \in Shapes, names \in NameSets, iob \in Iobs, uv \in BOOLEAN, pat \in 0 .. 1}
        /\ c = c0
Ops(cc) == {[f |-> f, r |-> <<>>] : f \in {"otis", "split", "atlas", "fes"} \cup (IF cc.uv THEN {} ELSE {"got"})}
        \cup (IF Fits(cc) /\ cc.nx > 1 /\ cc.ny > 1 /\ (\A k \in 1 .. Len(hist) : hist[k].f # "reduce")
              THEN {[f |-> "reduce", r |-> r] : r \in {<<1, cc.nx, 1, cc.ny>>, <<1, 2, 1, 2>>, <<cc.nx - 1, cc.nx, cc.ny - 1, cc.ny>>}} ELSE {})
Next == /\ Len(hist) < MaxLen
        /\ \E op \in Ops(c) : c' = Through(c, op, Design) /\ hist' = Append(hist, op)
        /\ UNCHANGED c0
Spec == Init /\ [][Next]_vars
RECURSIVE Cuts(_, _)
Cuts(cc, h) == IF h = <<>> THEN cc ELSE Cuts(IF Head(h).f = "reduce" THEN Cut(cc, Head(h).r) ELSE cc, Tail(h))
Kept == c = Cuts(c0, hist)
(* every field of a grid file returns, one record after the other *)
Whole == LET g == GridOf(GridWords(c0, Design)) IN
         \A k \in {"nx", "ny", "xlim", "ylim", "dt", "iob", "dep", "wet"} : g[k] = c0[k]
Marks == LET w == GridWords(c0, Design) IN Len(w) = 10 + (IF c0.iob = <<>> THEN 3 ELSE 2 * Len(c0.iob) + 2) + 2 * (Nodes(c0) + 2)
Emit == (EmitOn /\ hist # <<>>) => CSVWrite("%1$s", <<ToJson([c |-> c0, hist |-> hist])>>, IOEnv.OUT)
=============================================================================
