----------------------------- MODULE PredictTrace -----------------------------
EXTENDS Predict, TraceLib
VARIABLE l
Turn == 36000000       \* 1e-5 degree
(* Drift of a tabulated frequency (OTIS convention) from the Doodson one, in 1e-5  *)
(* degree at |t| days from 1992: seven printed digits                               *)
ParamTol(r) == 200 + r.absdays * r.drift
Failing(r) ==
  CASE r.ev = "elem" -> Violated({
      <<"Answers", r.st = "ok">>,
      <<"FlagIffSomeMasked", r.st = "ok" => (r.masked <=> AnyMasked(r.m))>>,
      <<"Superposition", (r.st = "ok" /\ ~AnyMasked(r.m)) =>
           /\ Fin(r.val) /\ \A k \in 1 .. Len(r.C) : Fin(r.C[k]) /\ Fin(r.S[k])
           /\ Abs(r.val - Super(r.re, r.im, r.C, r.S)) <= 2 + Weight(r.re, r.im)>> })
    [] r.ev = "call" -> Violated({
      <<"Answers", r.st = "ok">>, <<"Shape", r.st = "ok" => r.n = r.want>>, <<"InputsUnchanged", r.kept>> })
    [] r.ev = "basis" -> Violated({
      <<"AmplitudeIsF", Fin(r.amp) /\ Near(r.amp, r.f, 3)>>,
      <<"Quadrature", Fin(r.amp) /\ Near(r.amp2, r.amp, 3) /\ NearCirc(r.ang2, r.ang, Turn, 60)>>,
      <<"PhaseIsArgument", r.table \/ NearCirc(r.ang, r.g + r.u, Turn, 60)>>,
      <<"PhaseNearArgument", NearCirc(r.ang, r.g + r.u, Turn, ParamTol(r))>> })
    [] OTHER -> {"UnknownEvent"}
TraceInit == l = 1
TraceNext == l <= Len(Trace) /\ Report(l, Failing(Trace[l])) /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_l
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
