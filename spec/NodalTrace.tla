------------------------------ MODULE NodalTrace ------------------------------
EXTENDS Nodal, TraceLib
VARIABLE l
Turn == 36000000            \* 360 degrees in units of 1e-5 degree
Half == 62831853            \* 2 pi in units of 1e-7 radian
Dot(c, a) == SumSeq([k \in 1 .. 7 |-> c[k] * a[k]])
Near2(a, b, tol) == Fin(a) /\ Fin(b) /\ Abs(a - b) <= tol
Failing(r) ==
  CASE r.ev = "batch" -> Violated({
      <<"Answers", r.st = "ok">>,
      <<"Shape", r.st = "ok" => Len(r.f) = Len(r.f1) /\ Len(r.u) = Len(r.f)>>,
      <<"FactorIndependent", r.st = "ok" => \A k \in 1 .. Len(r.f) : Near2(r.f[k], r.f1[k], 1)>>,
      <<"PhaseIndependent", r.st = "ok" => \A k \in 1 .. Len(r.u) : NearCirc(r.u[k], r.u1[k], Half, 1)>>,
      <<"ArgumentIndependent", r.st = "ok" => \A k \in 1 .. Len(r.g) : NearCirc(r.g[k], r.g1[k], Turn, 1)>>,
      <<"InputsUnchanged", r.kept>> })
    [] r.ev = "compound" -> Violated({
      <<"ProductRule", (Modelled(r.n, r.conv) \/ (r.lf # 0 /\ r.conv # "perth3")) => Near2(r.lf, LnF(r.n, r.plf), Order(r.n) + 2)>>,
      <<"SumRule", (Modelled(r.n, r.conv) \/ (r.u # 0 /\ r.conv # "perth3")) => NearCirc(r.u, U(r.n, r.pu), Half, Order(r.n) + 2)>> })
    [] r.ev = "coef" -> Violated({
      <<"CoefficientsAreSum", SubSeq(r.c, 1, 6) = SubSeq(Coef(r.n), 1, 6)>>,
      <<"PhaseIsSum", (r.c[7] - Coef(r.n)[7]) % 4 = 0>> })
    [] r.ev = "parent" -> Violated({ <<"ParentCoefficients", r.c = Parents[ParentIdx[r.n]][2]>> })
    [] r.ev = "arg" -> Violated({
      <<"IntegerCombination", r.st = "ok" /\ NearCirc(r.g, Dot(r.c, r.a), Turn, SumSeq([k \in 1 .. 7 |-> Abs(r.c[k])]) + 2)>> })
    [] r.ev = "speed" -> Violated({ <<"PublishedFrequency", Near2(r.w, Speed(r.n), 3)>> })
    [] r.ev = "combine" -> Violated({
      <<"FrequencyOfCoefficients", Near2(r.w, Dot(r.c, r.rate), 2 + SumSeq([k \in 1 .. 7 |-> Abs(r.c[k])]))>> })
    [] r.ev = "advance" -> Violated({
      <<"AdvancesAtFrequency", NearCirc(r.g2 - r.g1, r.wdt, Turn, r.tol)>> })
    [] r.ev = "same" -> Violated({
      <<"ConventionFamily", r.eq>> })
    [] r.ev = "longitudes" -> Violated({
      <<"LongitudesAgree", \A k \in 1 .. 4 : NearCirc(r.a[k], r.b[k], Turn, 3000)>> })
    [] r.ev = "shape" -> Violated({ <<"Answers", r.st = "ok">>, <<"Shape", r.shape = r.want>> })
    [] OTHER -> {"UnknownEvent"}
TraceInit == l = 1
TraceNext == l <= Len(Trace) /\ Report(l, Failing(Trace[l])) /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_l
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
