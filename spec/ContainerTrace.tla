---------------------------- MODULE ContainerTrace ----------------------------
(* Events of the real container: op, arguments, result, and the projected state *)
(* after the call.  A "reset" event starts a new behaviour.                     *)
EXTENDS Container, TraceLib
VARIABLES l, s, live
Obs(r, p) == {
  <<"OrderedFields", r.fields = p.order>>,
  <<"Length", r.len = Len(p.order)>>,
  <<"LookupReturnsLastStored", r.vals = [i \in 1 .. Len(p.order) |-> p.val[p.order[i]]]>>,
  <<"AmplitudePhaseReconstruct", \A i \in 1 .. Len(r.ampph) : r.ampph[i]>>,
  <<"IterationVisitsAll", r.listed = Pairs(p)>>,
  <<"OneCodePerField", r.ncodes = Len(p.order)>>,
  <<"ShapeReported", r.shapeok>> }
Failing(r, p, res) ==
  Violated({<<"Result", r.res = res>>} \cup (IF r.full THEN Obs(r, p) ELSE {}))
TraceInit == l = 1 /\ s = Empty /\ live = TRUE
TraceNext ==
  /\ l <= Len(Trace) /\ l' = l + 1
  /\ LET r == Trace[l] IN
     IF r.op = "reset" THEN s' = Empty /\ live' = TRUE
     ELSE IF ~live THEN UNCHANGED <<s, live>>
     ELSE LET e == Step(s, r)  f == Failing(r, e.st, e.res) IN
          /\ Report(l, f) /\ s' = e.st /\ live' = (f = {})
TraceSpec == TraceInit /\ [][TraceNext]_<<l, s, live>>
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
