------------------------------ MODULE DriverTrace ------------------------------
(* Answers of the drivers, judged cell by cell against the value of the cell's  *)
(* own point and instant (references, of single-point calls) and, for model     *)
(* tides, the validity of the lattice model at the point.                       *)
EXTENDS Driver, TraceLib
M == INSTANCE Model
VARIABLE l
Models == JsonDeserialize(IOEnv.MODELS)
Refs == JsonDeserialize(IOEnv.REFS)
(* is the point valid (any tie of nearest: unknown) *)
Amb(r, p) == LET m == Models[r.mod + 1] IN
   r.meth = "nearest" /\ Cardinality(M!NearestNodesIf(m, p[1], p[2])) > 1
Valid(r, p) == LET m == Models[r.mod + 1] IN
   \A c \in 1 .. Len(m.cons) : \E o \in M!Outcomes(m, c, r.meth, p[1], p[2], r.extrap, r.cut) : o.den > 0
Dubious(r, p) == LET m == Models[r.mod + 1] IN
   \E c \in 1 .. Len(m.cons) : \E o1, o2 \in M!Outcomes(m, c, r.meth, p[1], p[2], r.extrap, r.cut) : (o1.den > 0) # (o2.den > 0)
Cell(r, c) == LET p == PointOf(r.layout, r.dims, c)  t == InstOf(r.layout, r.dims, c)
   IN [pt |-> p, ref |-> Refs[r.ref + 1][r.pix[p]][r.tix[t]]]
CellBad(r, c) ==
  LET x == Cell(r, c)  v == r.v[c + 1]  y == r.val[c + 1] IN
  (IF r.mod >= 0 /\ ~Dubious(r, r.pts[x.pt]) /\ v # Valid(r, r.pts[x.pt]) THEN {"ValidityOfCell"} ELSE {})
  \cup (IF v # x.ref.v THEN {"SameValidityAsAlone"} ELSE IF v /\ ~Near(y, x.ref.val, r.tol) THEN {"ValueOfCell"} ELSE {})
Failing(r) ==
  IF "sizes" \in DOMAIN r THEN Violated({<<"LayoutFromSizes", r.got = LayoutOf(r.sizes[1], r.sizes[2], r.sizes[3], r.deep)>>})
  ELSE IF r.status # "ok" THEN {"CallCompletes"}
  ELSE IF r.shape # r.dims THEN {"Shape"}
  ELSE UNION {CellBad(r, c) : c \in 0 .. Prod(r.dims) - 1}
       \cup Violated({ <<"FillValueWhereInvalid", r.fillok>>, <<"InputsKept", r.kept>> })
TraceInit == l = 1
TraceNext == l <= Len(Trace) /\ Report(l, Failing(Trace[l])) /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_l
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
