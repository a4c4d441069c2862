------------------------------ MODULE InferTrace ------------------------------
EXTENDS Infer, TraceLib
VARIABLE l
Turn == 36000000
ToSet(s) == {s[i] : i \in 1 .. Len(s)}
Eff(r) == Effective(r.conv, ToSet(r.sup), ToSet(r.req), r.all)
(* part[m]: what minor m alone would contribute there, in 1e-6 *)
Failing(r) ==
  CASE r.ev = "sum" -> Violated({
      <<"Answers", r.st = "ok">>,
      <<"ShapeOfPrediction", r.st = "ok" => r.n = r.want>>,
      <<"MaskOfPrediction", r.st = "ok" => r.maskok>>,
      <<"SumOfEffectiveMinors", r.st = "ok" =>
          \A e \in 1 .. Len(r.val) : r.bad[e] \/
             (LET E == Eff(r) ms == SelectSeq(r.names, LAMBDA m : m \in E)
              IN /\ \A m \in E : \E i \in 1 .. Len(r.names) : r.names[i] = m
                 /\ Fin(r.val[e])
                 /\ Abs(r.val[e] - SumSeq([i \in 1 .. Len(r.names) |-> IF r.names[i] \in E THEN r.part[i][e] ELSE 0])) <= 8 + 4 * Len(ms))>> })
    [] r.ev = "refuse" -> Violated({
      <<"RefusedIffTooFewMajors", (r.st # "ok") <=> (Refused(r.conv, ToSet(r.sup)))>> })
    [] r.ev = "linear" -> Violated({
      <<"Linear", \A e \in 1 .. Len(r.ab) : Fin(r.ab[e]) /\ Abs(r.ab[e] - (r.p * r.a[e] + r.q * r.b[e])) <= 8 * (Abs(r.p) + Abs(r.q) + 1)>>,
      <<"OthersDoNotContribute", \A e \in 1 .. Len(r.a) : Abs(r.a[e] - r.a2[e]) <= 3>> })
    [] r.ev = "elem" -> Violated({
      <<"OwnElement", r.st = "ok" /\ Len(r.val) = Len(r.alone) /\ \A e \in 1 .. Len(r.val) : r.bad[e] \/ (Fin(r.val[e]) /\ Abs(r.val[e] - r.alone[e]) <= 4)>>,
      <<"OrderOfConstituents", r.st = "ok" => (Len(r.val) = Len(r.perm) /\ \A e \in 1 .. Len(r.val) : r.bad[e] \/ Abs(r.val[e] - r.perm[e]) <= 4)>>,
      <<"InputsUnchanged", r.kept>> })
    [] r.ev = "short" -> Violated({
      <<"PublishedAdmittance", Fin(r.c) /\ Abs(r.c - r.f * Weight5(r.fes, r.m, r.major)) <= 40000>>,
      <<"InPhaseWithArgument", Abs(r.s) <= 2000>> })
    [] r.ev = "equilibrium" -> Violated({
      <<"EquilibriumReproduced", Fin(r.amp) /\ Abs(r.amp - EqAmp[r.m]) <= 2 + (EqAmp[r.m] * r.pct) \div 1000>>,
      <<"InPhaseWithArgument", Abs(r.s) <= 2 + r.amp \div 10000>> })
    [] OTHER -> {"UnknownEvent"}
TraceInit == l = 1
TraceNext == l <= Len(Trace) /\ Report(l, Failing(Trace[l])) /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_l
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
