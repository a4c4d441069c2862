------------------------------ MODULE ModelTrace ------------------------------
(* Events observed from the real readers, judged against Model.tla.           *)
(* Models: the datasets (JSON), referred to by index.                         *)
EXTENDS Model, TraceLib
VARIABLE l
Models == JsonDeserialize(IOEnv.MODELS)
(* values observed in 1e-4 units; velocities in 1e-2 cm/s *)
MatchV(m, o, r) ==
  IF o.den = 0 THEN ~r.valid
  ELSE /\ r.valid /\ (IF m.vel THEN Abs(r.re) < 150000 /\ Abs(r.im) < 150000 ELSE Abs(r.re) < 20000000 /\ Abs(r.im) < 20000000)
       /\ IF m.vel THEN Near(r.re * o.dd, 20000 * o.nre, 2 * o.dd) /\ Near(r.im * o.dd, 20000 * o.nim, 2 * o.dd)
          ELSE Near(r.re * o.den, 10000 * o.nre, 8 * o.den) /\ Near(r.im * o.den, 10000 * o.nim, 8 * o.den)
(* an answer of one point: values of all constituents asked *)
PointBad(m, r, p) ==
  LET O(k) == Outcomes(m, k, r.meth, p.x, p.y, r.extrap, r.cut)
      V(k) == [valid |-> p.v[k], re |-> p.re[k], im |-> p.im[k]]
      C == 1 .. Len(m.cons)
      bad == {k \in C : ~\E o \in O(k) : MatchV(m, o, V(k))}
  IN IF bad = {} THEN {}
     ELSE LET k == CHOOSE k \in bad : TRUE
          IN IF \A o \in O(k) : (o.den > 0) # p.v[k]
             THEN {IF p.v[k] THEN "InvalidPointAnswered" ELSE "ValidPointRejected"}
             ELSE {"ValueAtPoint"}
DepthBad(m, r, p) ==
  IF ~("d" \in DOMAIN p) \/ ~(\A c \in 1 .. Len(p.v) : p.v[c]) THEN {}
  ELSE LET m2 == [m EXCEPT !.cwet = <<[j \in 1 .. m.H |-> [i \in 1 .. m.W |-> TRUE]]>>]
           O == Interp([m2 EXCEPT !.re = <<m.dep2>>, !.im = <<m.dep2>>], 1, r.meth, p.x, p.y)
       IN IF \E o \in O : IF o.den = 0 THEN ~p.dv ELSE p.dv /\ Near(p.d * o.den * 2, 100 * o.nre, 4 * o.den) THEN {} ELSE {"DepthAtPoint"}
(* the equilibrium node tide, 0.0122087 m of the second zonal harmonic, opposite sign *)
NodeBad(m, p) == IF ~("node" \in DOMAIN p) THEN {}
   ELSE LET s == SinQ(m.lat + p.y * m.qy)  P20 == ((3 * s * s) \div 20000) - 5000
        IN IF ~p.nodev \/ Near(p.node, 0 - ((P20 * 12209) \div 1000), 120) THEN {} ELSE {"NodeTide"}
(* the domain: every constituent of every part (u and v of currents) is valid *)
InDomain(r, p) == \A k \in 1 .. Len(r.parts) : LET m == Models[r.parts[k] + 1] IN
   \A c \in 1 .. Len(m.cons) : (CHOOSE o \in Interp(m, c, r.meth, p.q[k][1], p.q[k][2]) : TRUE).den > 0
DomainAmbiguous(r, p) == r.meth = "nearest" /\ \E k \in 1 .. Len(r.parts) :
   Cardinality(NearestNodesIf(Models[r.parts[k] + 1], p.q[k][1], p.q[k][2])) > 1
Clauses(r) ==
  LET m == Models[r.mod + 1] IN
  CASE r.kind = "ask" ->
        Violated({ <<"Names", r.names = m.cons>>, <<"Kept", r.kept>>, <<"Leak", ~r.leak>> })
        \cup (IF r.names # m.cons THEN {} ELSE UNION {PointBad(m, r, r.pts[k]) \cup DepthBad(m, r, r.pts[k]) \cup NodeBad(m, r.pts[k]) : k \in 1 .. Len(r.pts)})
    [] r.kind = "same" -> Violated({ <<r.clause, r.same>> })
    [] r.kind = "domain" ->
        Violated({ <<"Shape", r.shapeok>> }) \cup
        (IF \A k \in 1 .. Len(r.pts) : DomainAmbiguous(r, r.pts[k]) \/ r.pts[k].v = InDomain(r, r.pts[k])
         THEN {} ELSE {"DomainAgreesWithValidity"})
    [] OTHER -> {"UnknownKind"}
Failing(r) == IF r.status # "ok" THEN {"CallCompletes"} ELSE Clauses(r)
TraceInit == l = 1
TraceNext == l <= Len(Trace) /\ Report(l, Failing(Trace[l])) /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_l
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
