-------------------------------- MODULE Files --------------------------------
(* Spatial data files.  A variable is a sequence of cells, a cell is a number or  *)
(* masked; a file stores numbers only, a masked cell as the fill value of the     *)
(* variable, and says which value that is.  Formats differ in what they can hold. *)
EXTENDS Integers, Sequences, FiniteSets
Masked == "masked"
Bug(design, name, right, wrong) == IF design = name THEN wrong ELSE right
Formats == {"ascii", "yaml", "netCDF4", "HDF5", "GTiff", "cog", "parquet"}
(* kinds of data: drift (points in time), grid, time series (stations) *)
Holds(fmt, kind) == CASE fmt \in {"netCDF4"} -> TRUE [] fmt = "HDF5" -> TRUE [] fmt \in {"GTiff", "cog"} -> kind = "grid" [] OTHER -> kind = "drift"
(* is the fill value stored beside the numbers; are attributes *)
SaysFill(fmt) == fmt \in {"yaml", "netCDF4", "HDF5", "GTiff", "cog", "parquet"}
Attributes(fmt) == fmt \in {"yaml", "netCDF4", "HDF5", "parquet"}
(* cells of a variable on disk, and back *)
Store(v, fill) == [k \in 1 .. Len(v) |-> IF v[k] = Masked THEN fill ELSE v[k]]
(* fill "" : the file does not say *)
Load(w, fill) == [k \in 1 .. Len(w) |-> IF fill # "" /\ w[k] = fill THEN Masked ELSE w[k]]
(* the caller: cells, fill value ("" none), whether a scalar variable comes with them *)
FileOf(c, fmt, design) ==
  LET f == Bug(design, "zero is no fill", c.fill, IF c.fill = "zero" /\ fmt \in {"GTiff", "cog"} THEN "" ELSE c.fill)
      v == Bug(design, "mask ignored", Store(c.cells, IF c.fill = "" THEN "x" ELSE c.fill), [k \in 1 .. Len(c.cells) |-> IF c.cells[k] = Masked THEN "under" ELSE c.cells[k]]) IN
  [fmt |-> fmt, cells |-> v, fill |-> IF SaysFill(fmt) THEN f ELSE "", scalar |-> Bug(design, "scalar dropped", c.scalar, IF fmt = "HDF5" /\ c.scalar # 0 THEN 99 ELSE c.scalar)]
Reading(d) == [cells |-> Load(d.cells, d.fill), scalar |-> d.scalar]
(* what has to come back *)
Expect(c, fmt) == [cells |-> IF SaysFill(fmt) THEN c.cells ELSE Store(c.cells, IF c.fill = "" THEN "x" ELSE c.fill), scalar |-> c.scalar]
(* writing must leave the caller's attributes alone *)
After(c, fmt, design) == Bug(design, "attribute removed", c, IF fmt \in {"netCDF4", "HDF5"} THEN [c EXCEPT !.fill = ""] ELSE c)
-----------------------------------------------------------------------------
(* names: exact, else the one that differs in letter case only *)
Lower(n) == CASE n \in {"a.nc", "A.NC", "A.nc"} -> "a.nc" [] n \in {"a.nc.bak", "A.NC.bak"} -> "a.nc.bak" [] n \in {"aXnc"} -> "axnc" [] OTHER -> n
Found(fs, n, design) ==
  IF n \in fs THEN {n}
  ELSE Bug(design, "prefix", {m \in fs : Lower(m) = Lower(n)}, {m \in fs : Lower(m) = Lower(n) \/ (Lower(n) = "a.nc" /\ Lower(m) \in {"a.nc.bak", "axnc"})})
-----------------------------------------------------------------------------
(* a raster of n pixels, eight units wide, from zero: the pixels that bounds ask  *)
(* for.  Those whose centre is inside have to come, others that they touch may    *)
Touched(n, lo, hi) == {k \in 0 .. n - 1 : 8 * k <= hi /\ 8 * k + 8 >= lo}
Centres(n, lo, hi) == {k \in 0 .. n - 1 : 8 * k + 4 >= lo /\ 8 * k + 4 <= hi}
FloorDiv(a) == IF a >= 0 THEN a \div 8 ELSE -((-a + 7) \div 8)
Pixels(n, lo, hi, design) ==
  LET first == IF FloorDiv(lo) < 0 THEN 0 ELSE FloorDiv(lo)
      last == IF FloorDiv(hi) > n - 1 THEN n - 1 ELSE FloorDiv(hi) IN
  CASE design = "counted" -> {k \in 0 .. n - 1 : k >= first /\ k < first + (hi - lo) \div 8 + 1}
    [] design = "upper edge dropped" -> {k \in 0 .. n - 1 : k >= first /\ k < last}
    [] design = "outside wraps" -> IF lo < 0 THEN {k \in 0 .. n - 1 : k >= n + FloorDiv(lo)} ELSE first .. last
    [] OTHER -> first .. last
=============================================================================
