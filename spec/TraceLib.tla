------------------------------ MODULE TraceLib ------------------------------
(* Shared machinery of all trace modules.  A trace module defines            *)
(*    Failing(r)  the set of names of the clauses that event r violates      *)
(* Verdicts are total: an accepted event has Failing(r) = {}.  Acceptance of *)
(* the whole trace is by POSTCONDITION (every line consumed), rejected lines *)
(* are reported with the failing clause names.                               *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
Abs(x) == IF x < 0 THEN -x ELSE x
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a < b THEN b ELSE a
Near(a, b, tol) == Abs(a - b) <= tol
Big == 900000000
Fin(x) == Abs(x) < Big
RECURSIVE SumSeq(_)
SumSeq(s) == IF s = <<>> THEN 0 ELSE Head(s) + SumSeq(Tail(s))
(* clause table -> set of violated names *)
Violated(clauses) == {c[1] : c \in {d \in clauses : ~d[2]}}
Report(i, bad) == IF bad = {} THEN TRUE
                  ELSE PrintT("@BAD " \o ToJson([i |-> i, bad |-> bad]))
(* difference of angles given on a lattice with period P, in (-P/2, P/2] *)
Circ(a, b, P) == LET d == (a - b) % P IN IF 2 * d > P THEN d - P ELSE d
NearCirc(a, b, P, tol) == Abs(Circ(a, b, P)) <= tol
=============================================================================
