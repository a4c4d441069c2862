------------------------------ MODULE ProjTrace ------------------------------
EXTENDS Proj, TraceLib
VARIABLE l
(* units of the records: places in centimetres / 10 (metres), angles in 1e-6 deg *)
Sg(x, tol) == IF Abs(x) <= tol THEN 0 ELSE IF x > 0 THEN 1 ELSE -1
Clauses(r) ==
  CASE r.kind = "forward" -> Violated({
         <<"Geographic", Geographic(r.P) => Near(r.x, r.lon, 2) /\ Near(r.y, r.lat, 2)>>,
         <<"Signs", Polar(r.P) /\ r.rho > 5 => Signs(r.P, r.k) = <<Sg(r.x, 2), Sg(r.y, 2)>>>>,
         <<"Diagonals", Polar(r.P) /\ Diagonal(r.k) => Near(Abs(r.x), Abs(r.y), 2)>>,
         <<"Radius", Polar(r.P) /\ Radius(r.P, r.deg) >= 0 => Near(r.rho, Radius(r.P, r.deg), 3)>>,
         <<"Circle", Polar(r.P) => Near(r.rho, r.rho0, 3)>>,
         <<"Outwards", Polar(r.P) => r.rho > r.inner>>,
         <<"Flag", r.flag <=> Geographic(r.P)>>,
         <<"Caller", r.clean>> })
    [] r.kind = "round" -> Violated({ <<"RoundTrip", Near(r.lon, r.lon2, 2) /\ Near(r.lat, r.lat2, 2)>>, <<"Caller", r.clean>> })
    [] r.kind = "step" -> Violated({ <<"DependsOnArguments", r.close>>, <<"Direction", r.dir = r.wantdir>>, <<"System", r.geo <=> Geographic(r.P)>> })
    [] r.kind = "form" -> Violated({ <<"SameSystemInAnyForm", Near(r.lon, r.lon2, 2) /\ Near(r.lat, r.lat2, 2) /\ r.flag = r.wantflag>>, <<"Caller", r.clean>> })
    [] r.kind = "error" -> Violated({ <<"UnknownSystemsRefused", r.raised>> })
    [] r.kind = "driver" -> Violated({ <<"SamePointInAnySystem", Near(r.val, r.ref, r.tol)>> })
    [] OTHER -> {"UnknownKind"}
Failing(r) == IF r.status # "ok" THEN {"CallCompletes"} ELSE Clauses(r)
TraceInit == l = 1
TraceNext == l <= Len(Trace) /\ Report(l, Failing(Trace[l])) /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_l
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
