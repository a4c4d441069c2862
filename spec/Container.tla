------------------------------ MODULE Container -------------------------------
(* The constituent container as an ordered map with independent iterators.     *)
(* state  [order: Seq(name), val: name -> value (a function on the order),      *)
(*         its: <<position or -1 (closed)>> for two iterator handles]           *)
(* Step(s, o) is the effect of one public call: [st, res].                      *)
EXTENDS Integers, Sequences, FiniteSets
Range(s) == {s[i] : i \in 1 .. Len(s)}
Empty == [order |-> <<>>, val |-> [n \in {} |-> 0], its |-> <<-1, -1>>]
Has(s, n) == n \in Range(s.order)
Closed == <<-1, -1>>
Put(s, n, v) == [m \in Range(s.order) \cup {n} |-> IF m = n THEN v ELSE s.val[m]]
Without(q, n) == SelectSeq(q, LAMBDA m : m # n)
Pairs(s) == [i \in 1 .. Len(s.order) |-> <<s.order[i], s.val[s.order[i]]>>]
(* modifying the container ends the life of open iterators *)
Step(s, o) ==
  CASE o.op = "append" ->
         [st |-> [order |-> IF Has(s, o.n) THEN s.order ELSE Append(s.order, o.n),
                  val |-> Put(s, o.n, o.v), its |-> Closed], res |-> <<"ok", "", 0>>]
    [] o.op = "update" ->
         IF Has(s, o.n) THEN [st |-> [s EXCEPT !.val = Put(s, o.n, o.v), !.its = Closed], res |-> <<"ok", "", 0>>]
         ELSE [st |-> s, res |-> <<"error", "", 0>>]
    [] o.op = "pop" ->
         IF Has(s, o.n) THEN [st |-> [order |-> Without(s.order, o.n),
                                      val |-> [m \in Range(Without(s.order, o.n)) |-> s.val[m]], its |-> Closed],
                              res |-> <<"val", "", s.val[o.n]>>]
         ELSE [st |-> s, res |-> <<"error", "", 0>>]
    [] o.op \in {"get", "scribble"} ->      \* scribble: modify the array that was returned
         IF Has(s, o.n) THEN [st |-> s, res |-> <<"val", "", s.val[o.n]>>] ELSE [st |-> s, res |-> <<"error", "", 0>>]
    [] o.op = "open" -> [st |-> [s EXCEPT !.its[o.i] = 0], res |-> <<"ok", "", 0>>]
    [] o.op = "next" ->
         IF s.its[o.i] < 0 THEN [st |-> s, res |-> <<"closed", "", 0>>]
         ELSE IF s.its[o.i] < Len(s.order)
              THEN [st |-> [s EXCEPT !.its[o.i] = @ + 1], res |-> <<"item">> \o Pairs(s)[s.its[o.i] + 1]]
              ELSE [st |-> [s EXCEPT !.its[o.i] = -1], res |-> <<"stop", "", 0>>]
    [] OTHER -> [st |-> s, res |-> <<"unknown", "", 0>>]
=============================================================================
