------------------------------- MODULE Mirror --------------------------------
(* The programs that fetch models: archives (tar, zip), directories and files of a *)
(* server, copied into a directory of the user.  A path is a sequence of strings.   *)
EXTENDS Integers, Sequences, FiniteSets
-----------------------------------------------------------------------------
(* what a request comprises: products by name; flat archives lose their directories;
   all of them end below a directory of their own or that of the user              *)
T(id, flat, base) == [id |-> id, how |-> "tar", flat |-> flat, base |-> base]
F(id, base) == [id |-> id, how |-> "file", flat |-> TRUE, base |-> base]
Z(id, base) == [id |-> id, how |-> "zip", flat |-> TRUE, base |-> base]
L(id, base) == [id |-> id, how |-> "list", flat |-> TRUE, base |-> base]
GOT == {"GOT4.8", "GOT4.10", "GOT5.5", "GOT5.5D", "GOT5.6", "RE14"}
If(c, s) == IF c THEN s ELSE {}
Blocks12 == {"fes2012-currents1", "fes2012-currents2", "fes2012-currents3", "fes2012-currents4"}
ArcticDir(m) == CASE m = "AODTM-5" -> "aodtm5_tmd" [] m = "AOTIM-5" -> "aotim5_tmd" [] m = "AOTIM-5-2018" -> "Arc5km2018" [] OTHER -> m
Products(o, model) ==
  CASE o.prog = "got" -> {T(model, FALSE, <<>>)}
    [] o.prog = "arctic" -> {Z(model, <<ArcticDir(model)>>)}
    [] model = "FES1999" -> {F("fes1999-readme", <<"fes1999">>), T("fes1999", TRUE, <<"fes1999">>)}
    [] model = "FES2004" -> {F("fes2004-readme", <<"fes2004">>), T("fes2004", TRUE, <<"fes2004">>)}
    [] model = "FES2012" -> {F("fes2012-readme", <<"fes2012">>), T("fes2012", TRUE, <<"fes2012">>)}
         \cup If(o.currents, {F("fes2012-creadme", <<"fes2012">>)} \cup {T(b, FALSE, <<"fes2012">>) : b \in Blocks12})
    [] model = "FES2014" -> {F("fes2014-readme", <<"fes2014">>), T("fes2014", FALSE, <<"fes2014">>)}
         \cup If(o.load, {T("fes2014-load", FALSE, <<"fes2014">>)})
         \cup If(o.currents, {F("fes2014-creadme", <<"fes2014">>), T("fes2014-east", FALSE, <<"fes2014">>), T("fes2014-north", FALSE, <<"fes2014">>)})
    [] model = "FES2022" -> {L("fes2022", <<"fes2022b", "ocean_tide_20241025">>)}
         \cup If(o.load, {L("fes2022-load", <<"fes2022b", "load_tide">>)})
         \cup If(o.extrapolated, {L("fes2022-extrapolated", <<"fes2022b", "ocean_tide_extrapolated">>)})
-----------------------------------------------------------------------------
(* members: [path, sfx, cls, v, t, big]; cls is "model", "other" (documents), "hidden" (of an
   operating system), "outside" (its path leads out of the directory)                      *)
Selected(o, p, m) ==
  CASE m.cls \in {"hidden", "outside"} -> FALSE
    [] o.prog = "got" -> m.sfx # (IF o.format = "netcdf" THEN ".d" ELSE ".nc")
    [] o.prog = "arctic" -> m.cls = "model"
    [] OTHER -> TRUE
Zipped(o) == CASE o.prog = "got" -> {".d", ".nc"} [] o.prog = "aviso" -> {".asc", ".nc"} [] OTHER -> {}
Named(o, m, name) == IF o.gzip /\ m.sfx \in Zipped(o) THEN name \o ".gz" ELSE name
Place(o, p, m) == LET n == Len(m.path) IN
  p.base \o (IF p.flat THEN <<>> ELSE SubSeq(m.path, 1, n - 1)) \o <<Named(o, m, m.path[n])>>
(* times count to two seconds *)
Current(o, m, local, at) == /\ at \in DOMAIN local
                            /\ o.prog # "arctic"
                            /\ m.t \div 2 <= local[at].t \div 2
(* all that a run would write: <<product, member, place>> *)
Writes(o, remote, local) ==
  {w \in UNION {UNION {{[p |-> p, m |-> m, at |-> Place(o, p, m)] : m \in {x \in remote[p.id] : Selected(o, p, x)}} : p \in Products(o, md)} : md \in o.models} : ~Current(o, w.m, local, w.at)}
Asked(o) == UNION {Products(o, md) : md \in o.models}
Written(o, w) == [v |-> w.m.v, t |-> IF o.prog = "arctic" THEN -1 ELSE w.m.t, mode |-> o.mode]
After(o, remote, local) ==
  LET ws == Writes(o, remote, local) IN
  [at \in DOMAIN local \cup {w.at : w \in ws} |-> IF \E w \in ws : w.at = at THEN Written(o, CHOOSE w \in ws : w.at = at) ELSE local[at]]
(* does the fault strike?  within the product f, or at the writing of a big file *)
Strikes(o, remote, local) ==
  LET ws == Writes(o, remote, local) IN
  CASE o.fault = "" -> FALSE
    [] o.fault \in {"offline", "login"} -> TRUE
    [] o.fault = "missing" -> \E p \in Asked(o) : p.id = o.at /\ (p.how \in {"tar", "zip"} \/ remote[p.id] # {})
    [] o.fault = "cut" -> \E p \in Asked(o) : p.id = o.at /\ (p.how \in {"tar", "zip"} \/ \E w \in ws : w.p.id = p.id)
    [] o.fault \in {"full", "killed"} -> \E w \in ws : w.m.big
-----------------------------------------------------------------------------
(* verification of files against a list of checksums: entries [name, cls, v, t], local copies by name *)
Matches(currents, e) == e.cls \in {"grid", "h"} \cup If(currents, {"u"})
Verified(currents, entries, local) == \A k \in 1 .. Len(entries) : Matches(currents, entries[k]) => local[k] = entries[k].v
=============================================================================
