------------------------------- MODULE Session -------------------------------
(* A model object and its user as a state machine.  The object carries a       *)
(* definition (its constituents) and, after reading, loaded constituents with  *)
(* the type they were read for.  The user's calls are                          *)
(*    extract   read from file and interpolate in one call                     *)
(*    read      load the constituents of a type (whole grid or a window)       *)
(*    interp    interpolate the loaded constituents (a type, or by default     *)
(*              the loaded one)                                                *)
(*    spoil     the user overwrites what earlier calls returned or were given  *)
(* The law: an answer is a function of the arguments of its call (and of what  *)
(* was read last, as to type and node tide); the history is invisible.         *)
(* Values are abstract: an answer is [t, conv, names, clean]: the type whose   *)
(* files it came from, how often transports were converted, whether the node   *)
(* tide is there and whether overwriting by the user reached it.               *)
EXTENDS Integers, Sequences, FiniteSets
Nothing == [t |-> "none", node |-> FALSE, conv |-> 0, clean |-> TRUE]
(* designs of the object: "sound", and wrong ones *)
Fresh(t, node) == [t |-> t, node |-> node, conv |-> 0, clean |-> TRUE]
TypeOf(s, op) == IF op.t = "default" THEN (IF s.cache.t = "none" THEN s.deft ELSE s.cache.t) ELSE op.t
(* the loaded constituents used by an interp call *)
Loaded(design, s, op) ==
  LET t == TypeOf(s, op) IN
  IF s.cache.t = "none" \/ (s.cache.t # t /\ design # "type blind") THEN Fresh(t, op.node) ELSE s.cache
Step(design, s, op) ==
  LET t == TypeOf(s, op)  nd == op.node \/ s.defnode IN
  CASE op.op = "extract" ->
         [s EXCEPT !.ans = [t |-> t, conv |-> 1, node |-> nd, clean |-> s.defclean],
                   !.defnode = (design = "shared names" /\ op.node) \/ @,
                   !.held = TRUE]
    [] op.op = "read" ->
         [s EXCEPT !.cache = [Fresh(t, nd) EXCEPT !.clean = s.defclean], !.ans = [t |-> "none", conv |-> 1, node |-> FALSE, clean |-> TRUE]]
    [] op.op = "interp" ->
         LET c == Loaded(design, s, op)
             c2 == IF design = "converts in place" THEN [c EXCEPT !.conv = @ + 1] ELSE c
         IN [s EXCEPT !.cache = c2, !.ans = [t |-> c.t, conv |-> c.conv + 1, node |-> c.node, clean |-> c.clean], !.held = TRUE]
    [] op.op = "spoil" ->
         [s EXCEPT !.cache.clean = @ /\ ~(design = "returns views" /\ s.held), !.ans = [t |-> "none", conv |-> 1, node |-> FALSE, clean |-> TRUE]]
(* the law *)
LastRead(h) == {i \in 1 .. Len(h) : h[i].op = "read" \/ h[i].op = "interp"}
RECURSIVE CacheOf(_, _)
CacheOf(deft, h) ==   (* what is loaded after h: [t, node] *)
  IF h = <<>> THEN [t |-> "none", node |-> FALSE]
  ELSE LET p == CacheOf(deft, SubSeq(h, 1, Len(h) - 1))  o == h[Len(h)]
           t == IF o.t = "default" THEN (IF p.t = "none" THEN deft ELSE p.t) ELSE o.t
       IN CASE o.op = "read" -> [t |-> t, node |-> o.node]
            [] o.op = "interp" -> IF p.t = t THEN p ELSE [t |-> t, node |-> o.node]
            [] OTHER -> p
Law(deft, h) ==
  LET o == h[Len(h)]  p == CacheOf(deft, SubSeq(h, 1, Len(h) - 1))
      t == IF o.t = "default" THEN (IF p.t = "none" THEN deft ELSE p.t) ELSE o.t
  IN CASE o.op = "extract" -> [t |-> t, conv |-> 1, node |-> o.node, clean |-> TRUE]
       [] o.op = "interp" -> [t |-> t, conv |-> 1, node |-> CacheOf(deft, h).node, clean |-> TRUE]
       [] OTHER -> [t |-> "none", conv |-> 1, node |-> FALSE, clean |-> TRUE]
=============================================================================
