------------------------------- MODULE Predict -------------------------------
(* A prediction is a masked superposition.  Every output element e belongs to a   *)
(* location and a time; constituent k contributes re*C[k][e] - im*S[k][e], where   *)
(* C and S are the responses of constituent k alone to unit cosine and sine parts. *)
EXTENDS Integers, Sequences, FiniteSets
LocOf(layout, e) == IF layout = "series" THEN 1 ELSE e
TimeOf(layout, e) == IF layout = "map" THEN 1 ELSE e
RECURSIVE SumP(_)
SumP(s) == IF s = <<>> THEN 0 ELSE Head(s) + SumP(Tail(s))
Super(re, im, C, S) == SumP([k \in 1 .. Len(re) |-> re[k] * C[k] + im[k] * S[k]])
Weight(re, im) == SumP([k \in 1 .. Len(re) |-> (IF re[k] < 0 THEN -re[k] ELSE re[k]) + (IF im[k] < 0 THEN -im[k] ELSE im[k])])
AnyMasked(m) == \E k \in 1 .. Len(m) : m[k]
=============================================================================
