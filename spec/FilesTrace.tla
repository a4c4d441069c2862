------------------------------ MODULE FilesTrace ------------------------------
EXTENDS Files, TraceLib
VARIABLE l
SeqSet(s) == {s[k] : k \in 1 .. Len(s)}
(* the number that stands for a masked cell in the records *)
NoCell == 777777777
Same(a, b, tol) == Len(a) = Len(b) /\ \A k \in 1 .. Len(a) : (a[k] = NoCell <=> b[k] = NoCell) /\ (a[k] # NoCell => Near(a[k], b[k], tol))
Back(r) == IF SaysFill(r.fmt) THEN r.cells ELSE [k \in 1 .. Len(r.cells) |-> IF r.cells[k] = NoCell THEN r.fill ELSE r.cells[k]]
Clauses(r) ==
  CASE r.kind = "read" -> Violated({
         <<"Cells", Same(Back(r), r.got, r.tol)>>,
         <<"Coordinates", Same(r.x, r.gotx, r.tol) /\ Same(r.y, r.goty, r.tol) /\ (r.timed => Same(r.t, r.gott, r.tol))>>,
         <<"Scalar", r.hasscalar => r.scalar = r.gotscalar>>,
         <<"Layout", r.shape = r.gotshape>>,
         <<"Dimensions", r.dims = r.wantdims>>,
         <<"FillValue", r.hasfill /\ r.fmt \in {"netCDF4", "HDF5", "GTiff", "cog", "yaml"} => r.gotfill = r.fill>>,
         <<"Attributes", Attributes(r.fmt) => SeqSet(r.att) \subseteq SeqSet(r.gotatt)>>,
         <<"ReadingKeepsArguments", r.clean>> })
    [] r.kind = "write" -> Violated({ <<"CallerKeeps", r.clean>> })
    [] r.kind = "find" -> LET hit == IF r.n \in SeqSet(r.fs) THEN {r.n} ELSE {r.fs[k] : k \in {j \in 1 .. Len(r.fs) : r.low[j] = r.lown}} IN
         Violated({ <<"FoundByName", IF hit = {} THEN r.got = "" /\ r.missing ELSE r.got \in hit>> })
    [] r.kind = "window" -> LET C == SeqSet(r.col) R == SeqSet(r.row) IN
         Violated({ <<"CentresInBounds", Centres(r.nx, r.xlo, r.xhi) \subseteq C /\ Centres(r.ny, r.ylo, r.yhi) \subseteq R>>,
                    <<"OnlyTouched", C \subseteq Touched(r.nx, r.xlo, r.xhi) /\ R \subseteq Touched(r.ny, r.ylo, r.yhi)>>,
                    <<"WholeByItsExtent", r.whole => Cardinality(C) = r.nx /\ Cardinality(R) = r.ny>>,
                    <<"InOrder", \A k \in 1 .. Len(r.col) - 1 : r.col[k + 1] = r.col[k] + 1>>, <<"InOrder", \A k \in 1 .. Len(r.row) - 1 : r.row[k + 1] = r.row[k] + 1>>,
                    <<"CellsOfTheWhole", Same(r.cells, r.got, 0)>>, <<"Extent", Same(r.extent, r.gotextent, 0)>>, <<"ReadingKeepsArguments", r.clean>> })
    [] r.kind = "beside" -> Violated({ <<"NothingBeside", r.refused \/ r.empty>> })
    [] OTHER -> {"UnknownKind"}
Failing(r) == IF r.status # "ok" THEN {"CallCompletes"} ELSE Clauses(r)
TraceInit == l = 1
TraceNext == l <= Len(Trace) /\ Report(l, Failing(Trace[l])) /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_l
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
