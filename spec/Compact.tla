------------------------------- MODULE Compact -------------------------------
(* ATLAS-compact binary files (Fortran sequential records) and the reader as a *)
(* cursor machine.  A file is a sequence of fields [tag, size] in bytes, every *)
(* record between two 4-byte marks:                                            *)
(*   header, one field of values per constituent, then patches: a header with  *)
(*   its own constituents, the places of its nodes, the values of each of its  *)
(*   constituents.  The reader seeks over what it does not want; the law is    *)
(*   that it always reads the field it wants and ends at the end of the file.  *)
EXTENDS Integers, Sequences, FiniteSets
Mark == [tag |-> "mark", size |-> 4]
Rec(fields) == <<Mark>> \o fields \o <<Mark>>
F(tag, size) == [tag |-> tag, size |-> size]
RECURSIVE Cat(_)
Cat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Cat(Tail(ss))
RECURSIVE Size(_)
Size(f) == IF f = <<>> THEN 0 ELSE Head(f).size + Size(Tail(f))
(* uv: values are pairs at the nodes of u and of v (two fields in patches) *)
PatchFields(k, p, uv) ==
  Rec(<<F("dims", IF uv THEN 20 ELSE 16), F("lims", 16), F("cons", 4 * p.nc), F("name", 20)>>)
  \o (IF uv THEN Rec(<<F("iu", 8 * p.nz)>>) \o Rec(<<F("iv", 8 * p.nv)>>) ELSE Rec(<<F("iz", 8 * p.nz)>>))
  \o Cat([c \in 1 .. p.nc |-> IF uv THEN Rec(<<F(<<"pu", k, c>>, 8 * p.nz)>>) \o Rec(<<F(<<"pv", k, c>>, 8 * p.nv)>>)
                              ELSE Rec(<<F(<<"p", k, c>>, 8 * p.nz)>>)])
File(f) == Rec(<<F("dims", 12), F("lims", 16), F("cons", 4 * f.nc)>>)
           \o Cat([c \in 1 .. f.nc |-> Rec(<<F(<<"h", c>>, (IF f.uv THEN 16 ELSE 8) * f.nx * f.ny)>>)])
           \o Cat([k \in 1 .. Len(f.patch) |-> PatchFields(k, f.patch[k], f.uv)])
(* the fields left after n bytes; a place inside of a field is no place at all *)
RECURSIVE Drop(_, _)
Drop(fields, n) == IF n = 0 THEN fields
                   ELSE IF n < 0 \/ fields = <<>> \/ Head(fields).size > n THEN <<F("lost", 1)>>
                   ELSE Drop(Tail(fields), n - Head(fields).size)
Peek(fields) == IF fields = <<>> THEN F("end", 0) ELSE Head(fields)
-----------------------------------------------------------------------------
(* the reader: moves <<"read", tag, size>> and <<"skip", n>> for constituent ic (from 1) *)
Bug(design, name, right, wrong) == IF design = name THEN wrong ELSE right
Main(f, ic, design) == LET b == (IF f.uv THEN 16 ELSE 8) * f.nx * f.ny IN
  << <<"skip", 4>>, <<"read", "dims", 12>>, <<"read", "lims", 16>>, <<"skip", 8 + 4 * f.nc + (ic - 1) * (b + 8)>>,
     <<"read", <<"h", ic>>, b>>, <<"skip", (f.nc - ic) * (b + 8) + 4>> >>
(* ic1: the place of the constituent in the patch (0: absent) *)
Patch(f, k, ic1, design) == LET p == f.patch[k]  z == 8 * p.nz  v == 8 * p.nv IN
  << <<"skip", 4>>, <<"read", "dims", IF f.uv THEN 20 ELSE 16>>, <<"read", "lims", 16>>, <<"read", "cons", 4 * p.nc>> >>
  \o (IF ic1 = 0
      THEN << <<"skip", IF f.uv THEN Bug(design, "absent uv", 56, 48) + 16 * p.nz + 16 * p.nv + (p.nc - 1) * (z + v + 16)
                        ELSE Bug(design, "absent z", 40, 32) + 16 * p.nz + (p.nc - 1) * (z + 8)>> >>
      ELSE IF f.uv
      THEN << <<"read", "name", 20>>, <<"skip", 8>>, <<"read", "iu", z>>, <<"skip", 8>>, <<"read", "iv", v>>,
              <<"skip", 8 + (ic1 - 1) * (z + v + 16)>>, <<"read", <<"pu", k, ic1>>, z>>, <<"skip", 8>>,
              <<"read", <<"pv", k, ic1>>, v>>, <<"skip", (p.nc - Bug(design, "own count", ic1, 1)) * (z + v + 16) + 4>> >>
      ELSE << <<"read", "name", 20>>, <<"skip", 8>>, <<"read", "iz", z>>, <<"skip", 8 + (ic1 - 1) * (z + 8)>>,
              <<"read", <<"p", k, ic1>>, z>>, <<"skip", (p.nc - Bug(design, "own count", ic1, 1)) * (z + 8) + 4>> >>)
=============================================================================
