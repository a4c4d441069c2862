-------------------------------- MODULE Export --------------------------------
(* Model definitions as objects with parts: a part of an object (its files, its   *)
(* projection) has an outer cell and an inner one.  Exporting and importing make *)
(* new objects; cells are shared or not according to the design.                 *)
EXTENDS Integers, Sequences, FiniteSets
Bug(design, name, right, wrong) == IF design = name THEN wrong ELSE right
(* object: [k |-> "model" / "dict" / "text", outer |-> address]; outer cell: [n, inner]; inner cell: [n, form] *)
(* value of an object: <<changes of the outer, changes of the inner, form of the leaves>> *)
Value(s, i) == LET c == s.outer[s.obj[i].at] IN <<c.n, s.inner[c.inner].n, s.inner[c.inner].form>>
Start == [obj |-> <<[k |-> "model", at |-> 1]>>, outer |-> <<[n |-> 0, inner |-> 1]>>, inner |-> <<[n |-> 0, form |-> "path"]>>]
(* a new object whose value is that of object i with leaves of another form *)
Fresh(s, i, kind, form) ==
  LET c == s.outer[s.obj[i].at]  d == s.inner[c.inner] IN
  [obj |-> Append(s.obj, [k |-> kind, at |-> Len(s.outer) + 1]),
   outer |-> Append(s.outer, [n |-> c.n, inner |-> Len(s.inner) + 1]),
   inner |-> Append(s.inner, [n |-> d.n, form |-> form])]
Shared(s, i, kind) == [s EXCEPT !.obj = Append(s.obj, [k |-> kind, at |-> s.obj[i].at])]
Shallow(s, i, kind) ==
  LET c == s.outer[s.obj[i].at] IN
  [s EXCEPT !.obj = Append(s.obj, [k |-> kind, at |-> Len(s.outer) + 1]), !.outer = Append(s.outer, c)]
Form(s, i) == s.inner[s.outer[s.obj[i].at].inner].form
InPlace(s, i) == LET c == s.outer[s.obj[i].at] IN [s EXCEPT !.inner[c.inner].form = "text"]
Step(s, op, design) ==
  CASE op.f = "export" ->
         Bug(design, "shared", Bug(design, "serialized in place", Bug(design, "shallow", Fresh(s, op.i, "dict", IF op.ser THEN "text" ELSE Form(s, op.i)), Shallow(s, op.i, "dict")),
             Fresh(InPlace(s, op.i), op.i, "dict", IF op.ser THEN "text" ELSE Form(s, op.i))), Shared(s, op.i, "dict"))
    [] op.f = "from_dict" -> Bug(design, "shallow import", Fresh(s, op.i, "model", Form(s, op.i)), Shallow(s, op.i, "model"))
    [] op.f = "from_file" -> Fresh(s, op.i, "model", "path")
    [] op.f = "outer" -> LET a == s.obj[op.i].at IN [s EXCEPT !.outer[a].n = @ + 1]
    [] op.f = "inner" -> LET b == s.outer[s.obj[op.i].at].inner IN [s EXCEPT !.inner[b].n = @ + 1]
    [] OTHER -> s
(* the law, on values alone *)
Want(v, op) ==
  CASE op.f = "export" -> Append(v, <<v[op.i][1], v[op.i][2], IF op.ser THEN "text" ELSE v[op.i][3]>>)
    [] op.f = "from_dict" -> Append(v, v[op.i])
    [] op.f = "from_file" -> Append(v, <<v[op.i][1], v[op.i][2], "path">>)
    [] op.f = "outer" -> [v EXCEPT ![op.i][1] = @ + 1]
    [] op.f = "inner" -> [v EXCEPT ![op.i][2] = @ + 1]
    [] OTHER -> v
RECURSIVE Wanted(_)
Wanted(h) == IF h = <<>> THEN <<<<0, 0, "path">>>> ELSE Want(Wanted(SubSeq(h, 1, Len(h) - 1)), h[Len(h)])
=============================================================================
