------------------------------- MODULE Programs -------------------------------
(* The command-line programs.  A file has places and instants (numbers counted    *)
(* from an epoch, in a system of coordinates; it may say which) and, when a        *)
(* program wrote it, cells.  A run reads one file and makes another: one cell for  *)
(* each point in time (drift), for each node and instant (grid, instants fastest), *)
(* or for each station and instant (time series).                                  *)
EXTENDS Integers, Sequences, FiniteSets
Bug(design, name, right, wrong) == IF design = name THEN wrong ELSE right
NoFile == [fmt |-> "none"]
Kinds == {"drift", "grid", "time series"}
Formats == {"csv", "netCDF4", "HDF5", "GTiff", "cog", "parquet"}
Holds(fmt, kind) == CASE fmt \in {"netCDF4", "HDF5"} -> TRUE [] fmt \in {"GTiff", "cog"} -> kind = "grid" [] OTHER -> kind = "drift"
SaysTime(fmt) == fmt \in {"netCDF4", "HDF5"}
SaysSystem(fmt) == fmt \in {"GTiff", "cog", "netCDF4", "HDF5", "parquet"}
HasTime(fmt) == fmt \notin {"GTiff", "cog"}
Programs == {"tide", "current", "lpet", "lpt", "opt", "set"}
Vars(p) == IF p = "current" THEN <<"u", "v">> ELSE <<p>>
Masks(p) == p \in {"tide", "current"}
(* what a file says goes before what the user says *)
Said(says, file, user) == IF says THEN file ELSE user
Count(kind, np, nt) == IF kind = "drift" THEN np ELSE np * nt
PlaceOf(kind, nt, k) == IF kind = "drift" THEN k ELSE (k - 1) \div nt + 1
InstantOf(kind, nt, k) == IF kind = "drift" THEN k ELSE ((k - 1) % nt) + 1
(* can a program run with it *)
Runs(f, op) == f.fmt # "none" /\ op.fmt = f.fmt /\ op.kind = f.kind /\ Holds(f.fmt, f.kind) /\ (HasTime(f.fmt) \/ op.delta # <<>>)
(* the meaning of a number counted from an epoch, in a system *)
Instants(f, op, At(_, _)) == LET e == Said(f.saystime, f.epoch, op.epoch)
                                 d == IF op.delta # <<>> THEN op.delta ELSE f.times IN [k \in 1 .. Len(d) |-> At(d[k], e)]
Places(f, op, In(_, _)) == LET s == Said(f.sayssystem, f.system, op.system) IN [k \in 1 .. Len(f.places) |-> In(f.places[k], s)]
-----------------------------------------------------------------------------
(* the law: the file a run makes; instants count from an epoch of its own (0), places are geographic (0) *)
Made(f, op, ps, ts, Val(_, _, _)) ==
  [fmt |-> f.fmt, kind |-> f.kind, saystime |-> SaysTime(f.fmt), epoch |-> 0, sayssystem |-> FALSE, system |-> 0, times |-> ts, places |-> ps,
   cells |-> [v \in 1 .. Len(Vars(op.prog)) |-> [k \in 1 .. Count(f.kind, Len(ps), Len(ts)) |-> Val(Vars(op.prog)[v], ps[PlaceOf(f.kind, Len(ts), k)], ts[InstantOf(f.kind, Len(ts), k)])]]]
=============================================================================
