----------------------------- MODULE CompactTrace -----------------------------
(* what the real readers of ATLAS-compact files return for the files of        *)
(* CompactMC; the value stored for patch k (0: the global grid), constituent c, *)
(* node n, part s (1, 2: u or z; 3, 4: v) is Val(k, c, n, s)                    *)
EXTENDS Compact, TraceLib
VARIABLE l
Val(k, c, n, s) == 10000 * k + 1000 * c + 10 * n + s
Elems(s) == {s[i] : i \in 1 .. Len(s)}
MainWant(f, ic, var) == [n \in 1 .. f.nx * f.ny |-> LET o == IF var = "v" THEN 2 ELSE 0 IN <<Val(0, ic, n, 1 + o), Val(0, ic, n, 2 + o)>>]
PatchWant(r, k, var) == LET nodes == IF var = "v" THEN r.places[k].v ELSE r.places[k].z  o == IF var = "v" THEN 2 ELSE 0
   IN {<<nodes[n][1], nodes[n][2], Val(k, r.has[k], n, 1 + o), Val(k, r.has[k], n, 2 + o)>> : n \in 1 .. Len(nodes)}
Clauses(r) ==
  CASE r.kind = "con" -> Violated({
        <<"GlobalValues", r.main = MainWant(r.f, r.ic, r.var)>>,
        <<"PatchesWithConstituent", Elems(r.keys) = {k \in 1 .. Len(r.has) : r.has[k] > 0}>>,
        <<"PatchValues", \A i \in 1 .. Len(r.keys) : r.keys[i] \in 1 .. Len(r.has) => Elems(r.vals[i]) = PatchWant(r, r.keys[i], r.var)>> })
    [] r.kind = "names" -> Violated({ <<"Names", r.got = r.want>> })
    [] r.kind = "grid" -> Violated({
        <<"Depths", r.hz = [n \in 1 .. r.f.nx * r.f.ny |-> Val(0, 0, n, 0)]>>,
        <<"Masks", r.mz = [n \in 1 .. r.f.nx * r.f.ny |-> n % 2] /\ r.pm = [n \in 1 .. r.f.nx * r.f.ny |-> n % 3]>>,
        <<"Centres", r.x = [n \in 1 .. r.f.nx |-> 2 * n - 1] /\ r.y = [n \in 1 .. r.f.ny |-> 2 * n - 1]>>,
        <<"PatchDepths", Elems(r.keys) = 1 .. Len(r.has) /\ \A i \in 1 .. Len(r.keys) :
             Elems(r.vals[i]) = {<<r.places[r.keys[i]].z[n][1], r.places[r.keys[i]].z[n][2], Val(r.keys[i], 0, n, 0)>> : n \in 1 .. Len(r.places[r.keys[i]].z)}>> })
    [] OTHER -> {"UnknownKind"}
Failing(r) == IF r.status # "ok" THEN {"CallCompletes"} ELSE Clauses(r)
TraceInit == l = 1
TraceNext == l <= Len(Trace) /\ Report(l, Failing(Trace[l])) /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_l
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
