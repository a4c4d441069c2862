------------------------------ MODULE StoreTrace ------------------------------
(* one event per file written (words of OTIS files, seen as integer, as eighths *)
(* and as characters), one per content read back, one per refusal               *)
EXTENDS Store, TraceLib
VARIABLE l
SameWord(w, got) == CASE w[1] = "i" -> got[1] = w[2]
                      [] w[1] = "f" -> got[2] = w[2]
                      [] w[1] = "s" -> got[3] = w[2]
SameWords(want, got) == Len(want) = Len(got) /\ \A k \in 1 .. Len(want) : SameWord(want[k], got[k])
NearVal(a, b, tol) == Len(a) = Len(b) /\ \A p \in 1 .. Len(a) : Near(a[p], b[p], tol)
RECURSIVE Cuts(_, _)
Cuts(cc, h) == IF h = <<>> THEN cc ELSE Cuts(IF Head(h).f = "reduce" THEN Cut(cc, Head(h).r) ELSE cc, Tail(h))
Centres(lim, n) == [k \in 1 .. n |-> 2 * lim[1] * n + (2 * k - 1) * (lim[2] - lim[1])]       \* times 2 n, in eighths
Clauses(r) ==
  CASE r.kind = "grid words" -> Violated({ <<"GridFile", SameWords(GridWords(r.c, "sound"), r.words)>> })
    [] r.kind = "con words" -> Violated({ <<"ConstituentFile", SameWords(ConWords(r.c, r.ks, "sound"), r.words)>> })
    [] r.kind = "content" -> LET w == Cuts(r.c, r.hist)  g == r.got IN Violated({
         <<"Coordinates", Len(g.x) = w.nx /\ Len(g.y) = w.ny
               /\ (\A k \in 1 .. w.nx : Near(g.x[k] * 2 * w.nx, Centres(w.xlim, w.nx)[k], 2 * w.nx))
               /\ (\A k \in 1 .. w.ny : Near(g.y[k] * 2 * w.ny, Centres(w.ylim, w.ny)[k], 2 * w.ny))>>,
         <<"NamesInOrder", g.cons = w.cons>>,
         <<"Depths", r.bath => g.dep = w.dep>>,
         <<"Masks", g.wet = w.wet>>,
         <<"OpenBoundary", r.iobs => g.iob = w.iob>>,
         <<"TimeStep", r.iobs => g.dt = w.dt>>,
         <<"Values", Len(g.val) = Len(w.cons) /\ \A k \in 1 .. Len(g.val) : Len(g.val[k]) = Nodes(w)
               /\ \A n \in 1 .. Nodes(w) : w.wet[n] = 1 => NearVal(g.val[k][n], [p \in 1 .. Wide(w) |-> 1000 * w.val[k][n][p]], r.tol)>>,
         <<"DryIsNothing", \A k \in 1 .. Len(g.val) : \A n \in 1 .. Len(g.val[k]) : w.wet[n] = 0 => NearVal(g.val[k][n], [p \in 1 .. Wide(w) |-> 0], 0)>>,
         <<"CallerUnchanged", r.clean>> })
    [] r.kind = "refused" -> Violated({ <<"RefusedNotMangled", r.raised>> })
    [] r.kind = "nan" -> Violated({ <<"InvalidStaysInvalid", r.mask = r.want>>, <<"Values", r.same>> })
    [] OTHER -> {"UnknownKind"}
Failing(r) == IF r.status # "ok" THEN {"CallCompletes"} ELSE Clauses(r)
TraceInit == l = 1
TraceNext == l <= Len(Trace) /\ Report(l, Failing(Trace[l])) /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_l
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
