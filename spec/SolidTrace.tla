------------------------------ MODULE SolidTrace ------------------------------
(* Displacements of stations in radial, north and east components against Solid.   *)
EXTENDS Solid, TraceLib
VARIABLE l
Both(Op(_, _), r) == Op(r.fs, r.gs) + Op(r.fm, r.gm)
Failing(r) ==
  IF r.status # "ok" THEN {"CallCompletes"}
  ELSE CASE r.kind = "step" -> Violated({
              <<"RadialOfStepTwo", Near(r.r, StepR(r.h, r.d, r.l), 40)>>,
              <<"NorthOfStepTwo", Near(r.n, StepN(r.h, r.d, r.l), 40)>>,
              <<"EastOfStepTwo", Near(r.e, StepE(r.h, r.d, r.l), 40)>> })
         [] r.kind = "small" -> Violated({
              <<"RadialOutOfPhase", Near(r.r, Both(SmallR, r), 110)>>,
              <<"NorthOutOfPhase", Near(r.n, Both(SmallN, r), 110)>>,
              <<"EastOutOfPhase", Near(r.e, Both(SmallE, r), 110)>> })
         [] r.kind = "h2" -> Violated({ <<"RadialOfDegreeTwo", Near(r.r, Both(R2, r), 14)>>, <<"NoTransverse", Abs(r.n) <= 3 /\ Abs(r.e) <= 3>> })
         [] r.kind = "l2" -> Violated({ <<"NoRadial", Abs(r.r) <= 3>>,
              <<"NorthOfDegreeTwo", Near(r.n, Both(N2, r), 18)>>, <<"EastOfDegreeTwo", Near(r.e, Both(E2, r), 18)>> })
         [] r.kind = "h3" -> Violated({ <<"RadialOfDegreeThree", Near(r.r, Both(R3, r), 70)>>, <<"NoTransverse", Abs(r.n) <= 6 /\ Abs(r.e) <= 6>> })
         [] r.kind = "l3" -> Violated({ <<"NoRadial", Abs(r.r) <= 6>>,
              <<"NorthOfDegreeThree", Near(r.n, Both(N3, r), 90)>>, <<"EastOfDegreeThree", Near(r.e, Both(E3, r), 90)>> })
         [] r.kind = "defaults" -> Violated({ <<"NominalLoveNumbersAndMasses", Abs(r.r) <= 2 /\ Abs(r.n) <= 2 /\ Abs(r.e) <= 2>> })
         [] r.kind = "lpe" -> Violated({ <<"EquilibriumTerm", Near(r.v, Lpe(r.i, r.p2, r.c), 120)>> })
         [] OTHER -> {"UnknownEvent"}
TraceInit == l = 1
TraceNext == l <= Len(Trace) /\ Report(l, Failing(Trace[l])) /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_l
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
