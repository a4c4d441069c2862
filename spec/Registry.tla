------------------------------- MODULE Registry -------------------------------
(* Named models.  A database maps a kind (elevation, current) and a name to a     *)
(* definition; additional databases are merged name by name, later ones first.   *)
(* A lookup makes the object the definition and nothing else; whatever was read   *)
(* under an earlier definition is not an answer of the new one.                   *)
EXTENDS Integers, Sequences, FiniteSets
Bug(design, name, right, wrong) == IF design = name THEN wrong ELSE right
-----------------------------------------------------------------------------
(* merging: dbs is a sequence of functions name -> definition (of one kind)      *)
RECURSIVE Names(_)
Names(dbs) == IF dbs = <<>> THEN {} ELSE DOMAIN dbs[1] \cup Names(Tail(dbs))
RECURSIVE Find(_, _)
Find(dbs, n) == IF dbs = <<>> THEN "" ELSE LET d == dbs[Len(dbs)] IN IF n \in DOMAIN d THEN d[n] ELSE Find(SubSeq(dbs, 1, Len(dbs) - 1), n)
-----------------------------------------------------------------------------
(* families of formats *)
Formats == {"OTIS", "ATLAS-compact", "TMD3", "ATLAS-netcdf", "GOT-ascii", "GOT-netcdf", "FES-ascii", "FES-netcdf"}
Gridded(f) == f \in {"OTIS", "ATLAS-compact", "TMD3", "ATLAS-netcdf"}
Projected(f) == f \in {"OTIS", "ATLAS-compact", "TMD3"}
Scaled(f) == f \in {"ATLAS-netcdf", "GOT-ascii", "GOT-netcdf", "FES-ascii", "FES-netcdf"}
(* nodal corrections of the producer *)
Corrections(f) == CASE f = "OTIS" -> "OTIS" [] f = "ATLAS-compact" -> "ATLAS" [] f = "TMD3" -> "TMD3" [] f = "ATLAS-netcdf" -> "ATLAS"
                    [] f = "GOT-ascii" -> "perth3" [] f = "GOT-netcdf" -> "GOT" [] f \in {"FES-ascii", "FES-netcdf"} -> "FES" [] OTHER -> "?"
FileFormat(f) == CASE f = "OTIS" -> "OTIS" [] f = "ATLAS-compact" -> "ATLAS" [] f = "TMD3" -> "TMD3" [] f \in {"ATLAS-netcdf", "GOT-netcdf", "FES-netcdf"} -> "netcdf"
                    [] f \in {"GOT-ascii", "FES-ascii"} -> "ascii" [] OTHER -> "?"
(* millionths of a metre (elevations), or of a cm/s (currents), per unit of the files *)
Scales(f, kind, var) ==
  CASE kind = "current" -> IF f = "ATLAS-netcdf" THEN {100} ELSE {1000000}
    [] f = "ATLAS-netcdf" -> {1000}
    [] f \in {"GOT-ascii", "GOT-netcdf"} -> IF var = "tide_load" THEN {1000} ELSE {10000}
    [] f \in {"FES-ascii", "FES-netcdf"} -> {10000}
    [] OTHER -> {}
Variables(kind) == IF kind = "elevation" THEN {"tide_ocean", "tide_load", "tide_lpe"} ELSE {""}
(* names in files of other products: atl03, atl06, atl07, atl10, atl11, atl12, gla12, long name *)
Products(v) == CASE v = "tide_ocean" -> <<"tide_ocean", "tide_ocean", "height_segment_ocean", "height_segment_ocean", "tide_ocean", "tide_ocean_seg", "d_ocElv", "ocean_tide_elevation">>
                 [] v = "tide_load" -> <<"tide_load", "tide_load", "height_segment_load", "height_segment_load", "tide_load", "tide_load_seg", "d_ldElv", "load_tide_elevation">>
                 [] v = "tide_lpe" -> <<"tide_equilibrium", "tide_equilibrium", "height_segment_lpe", "height_segment_lpe", "tide_equilibrium", "tide_equilibrium_seg", "d_eqElv", "equilibrium_tide_elevation">>
                 [] OTHER -> <<"", "", "", "", "", "", "", "">>
-----------------------------------------------------------------------------
(* objects: the definition each attribute comes from, and of the cached constants *)
New == [def |-> "", left |-> {}, cache |-> ""]
(* attributes a definition sets: some are set by some definitions only *)
Sets(def) == CASE def \in {"A", "A2"} -> {"scale", "version", "constituents"} [] def = "B" -> {"scale"} [] def = "C" -> {"projection", "grid_file"} [] OTHER -> {"scale", "grid_file"}
Look(o, def, design) ==
  IF def = "" THEN o
  ELSE [def |-> def,
        left |-> Bug(design, "merged attributes", {}, {a \in o.left \cup (IF o.def = "" THEN {} ELSE Sets(o.def)) : a \notin Sets(def)}),
        cache |-> Bug(design, "kept constants", "", o.cache)]
Read(o) == [o EXCEPT !.cache = o.def]
Interpolates(o) == IF o.cache = "" THEN o.def ELSE o.cache
=============================================================================
