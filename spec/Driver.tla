-------------------------------- MODULE Driver --------------------------------
(* The high-level functions: a request lists points and instants in a layout;   *)
(* the answer is an array whose cells belong to one point and one instant.      *)
EXTENDS Integers, Sequences, FiniteSets
(* layouts: dims are <<n>>, <<ns, nt>>, <<ny, nx, nt>> *)
RECURSIVE Prod(_)
Prod(s) == IF s = <<>> THEN 1 ELSE Head(s) * Prod(Tail(s))
(* point and instant (from 1) of the c-th cell (from 0, last axis fastest) *)
PointOf(layout, dims, c) == CASE layout = "drift" -> c + 1
                              [] OTHER -> (c \div dims[Len(dims)]) + 1
InstOf(layout, dims, c) == CASE layout = "drift" -> c + 1
                             [] OTHER -> (c % dims[Len(dims)]) + 1
-----------------------------------------------------------------------------
(* numeric times: whole seconds since an epoch, in a time standard.  Instants are *)
(* UTC days (modified Julian) and seconds of day; epochs are midnights (MJD).      *)
LeapDays == <<44786, 45151, 45516, 46247, 47161, 47892, 48257, 48804, 49169, 49534, 50083, 50630, 51179, 53736, 54832, 56109, 57204, 57754>>
Leaps(mjd) == Cardinality({i \in 1 .. Len(LeapDays) : LeapDays[i] <= mjd})
(* seconds elapsed since the epoch: UTC counts 86400 a day, the others every second *)
Seconds(epoch, std, day, sod) == [days |-> day - epoch, secs |-> sod + (IF std \in {"GPS", "TAI", "LORAN"} THEN Leaps(day) - Leaps(epoch) ELSE 0)]
(* which layout requests of these sizes have, if none is named (deep: coordinates of two dimensions) *)
LayoutOf(nx, ny, nt, deep) ==
  CASE nx = 1 /\ ny = 1 -> "time series"
    [] nx = ny /\ nx = nt -> "drift"
    [] nx # ny \/ deep -> "grid"
    [] OTHER -> "unknown"
=============================================================================
