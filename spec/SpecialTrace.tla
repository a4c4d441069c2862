----------------------------- MODULE SpecialTrace -----------------------------
EXTENDS Special, TraceLib
VARIABLE l
LegClauses(r) == LET x == Pts[r.pt] IN Violated({
   <<"LegendreValue", Near(r.obs, Sgnm(r.m) * P(r.l, r.m, x) * (10000 \div Pow(10, r.l)), 1)>>,
   <<"ScalarInScalarOut", r.scalar>>, <<"SameInEveryLayout", r.layout>> })
AssocClauses(r) == LET x == Pts[r.pt] IN Violated({
   <<"NormalizedSquare", Near(r.sq, NormSq6(r.l, r.m, x), 3)>>,
   <<"NormalizedSign", r.sgn = SgnOf(P(r.l, r.m, x))>>,
   <<"ScalarInScalarOut", r.scalar>> })
HarmClauses(r) == LET x == Pts[r.pt] g == HarmSign(r.l, r.m, x, r.j) IN Violated({
   <<"HarmonicModulus", Near(r.sq, HarmSq6(r.l, r.m, x), 3)>>,
   <<"HarmonicPhase", r.sgn[1] = g[1] /\ r.sgn[2] = g[2]>>,
   <<"ScalarInScalarOut", r.scalar>> })
(* residuals of identities at arbitrary arguments, in 1e-9 *)
IdClauses(r) == Violated({ <<r.what, r.resid <= r.tol>> })
RotClauses(r) == LET W == Word(r.w) IN Violated({
   <<"RotationWord", \A i, j \in 1 .. 3 : Near(r.obs[i][j], W[i][j] * 1000, 1)>>,
   <<"EachAngleOnItsOwn", r.alone>> })
AliasClauses(r) == Violated({ <<"Folded", Near(r.obs, Fold(r.f, r.fs) * 1000, 1)>> })
PeriodClauses(r) == Violated({
   <<"PublishedPeriod", r.row > 0 => Near(r.obs, Alias[r.row].t[r.c], Max2(2, Alias[r.row].t[r.c] \div 400))>>,
   <<"AtLeastTwoSamples", 2 * r.samp <= r.obs + 1>>,
   <<"SamplesIndistinguishable", r.resid <= 200>> })
LoveClauses(r) ==
   LET want(k) == IF r.band = "diurnal" THEN Love[r.model].v[k][1] + (Love[r.model].v[k][2] * r.num) \div r.den
                  ELSE IF r.band = "semi" THEN Semidiurnal[k] ELSE LongPeriod[k]
   IN Violated({ <<"LoveNumbers", \A k \in 1 .. 3 : Near(r.obs[k], want(k), 3)>> })
PolyClauses(r) == Violated({
   <<"Polynomial", \A k \in 1 .. Len(r.t) : r.obs[k] = Horner(r.c, r.t[k])>> })
ModClauses(r) == Violated({
   <<"InOneTurn", \A k \in 1 .. Len(r.t) : Near(r.obs[k], r.t[k] % r.circle, 0)>> })
(* a row of a table of the tide potential: digits of the Doodson number *)
RowClauses(r) == Violated({
   <<"DoodsonDigits", \A k \in 1 .. 6 : r.digits[k] = r.coef[k] + (IF k = 1 THEN 0 ELSE 5)>>,
   <<"RowAsWritten", r.same>> })
TabClauses(r) == Violated({
   <<"EveryRow", r.n = r.want>>, <<"RowsInOrder", r.ordered>>, <<"RowAsWritten", r.same>> })
Failing(r) == IF r.status # "ok" THEN {"CallCompletes"}
   ELSE CASE r.kind = "legendre" -> LegClauses(r) [] r.kind = "assoc" -> AssocClauses(r) [] r.kind = "harm" -> HarmClauses(r)
          [] r.kind = "identity" -> IdClauses(r) [] r.kind = "rot" -> RotClauses(r) [] r.kind = "alias" -> AliasClauses(r)
          [] r.kind = "period" -> PeriodClauses(r) [] r.kind = "love" -> LoveClauses(r) [] r.kind = "poly" -> PolyClauses(r)
          [] r.kind = "mod" -> ModClauses(r) [] r.kind = "row" -> RowClauses(r) [] OTHER -> TabClauses(r)
TraceInit == l = 1
TraceNext == l <= Len(Trace) /\ Report(l, Failing(Trace[l])) /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_l
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
