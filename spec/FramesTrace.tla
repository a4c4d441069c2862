----------------------------- MODULE FramesTrace -----------------------------
(* kind "walk":  one position (of a batch) taken along a path; every step's      *)
(*   observed coordinates are judged against the exact lattice when it starts on *)
(*   it; off the lattice the end of a closed path must be the start.             *)
(* kind "horizon", "dms", "wrap", "ellipsoid", "scale", "table": single results. *)
EXTENDS Frames, TraceLib
VARIABLE l
MM == 10             \* lengths are observed in dm
UD == 1000000        \* angles in microdegrees
LonOK(x, d) == NearCirc(x, d * UD, 360 * UD, 1)
StepState(f, v, s) == CASE s.op = "to_cartesian" -> <<"cart", Cart(v)>>
                        [] s.op = "to_geodetic" -> <<"geod", Geod(v)>>
                        [] s.op = "to_sphere" -> <<"sphere", Sphere(v)>>
                        [] s.op = "from_sphere" -> <<"cart", FromSphere(v)>>
                        [] s.op = "to_ENU" -> <<"enu", ToENU(v, s.o)>>
                        [] s.op = "from_ENU" -> <<"cart", FromENU(v, s.o)>>
Judge(f, v, obs) ==
  CASE f \in {"geod", "sphere"} -> /\ (v[2] = 0 => LonOK(obs[1], v[1])) /\ Near(obs[2], v[2] * UD, 1) /\ Near(obs[3], v[3] * MM, 1)
    [] OTHER -> \A k \in 1 .. 3 : Near(obs[k], v[k] * MM, 1)
RECURSIVE Walk(_, _, _, _, _)
Walk(r, k, f, v, good) == IF k > Len(r.path) \/ ~good THEN good
   ELSE LET s == StepState(f, v, r.path[k]) IN Walk(r, k + 1, s[1], s[2], Judge(s[1], s[2], r.obs[k]))
Clauses(r) ==
  CASE r.kind = "walk" -> Violated({
      <<"ExactSteps", r.exact => Walk(r, 1, r.start, IF r.start = "geod" THEN r.pos ELSE Cart(r.pos), TRUE)>>,
      (* closed path: the residual in 1e-9 degrees / micrometres *)
      <<"PathCloses", r.closed => /\ Near(r.dlat, 0, r.tolt) /\ Near(r.dh, 0, r.tolh)
                                  /\ (r.pole \/ Near(r.dlon, 0, r.tolt))>>,
      <<"SamePlace", Near(r.dist, 0, r.told)>>,          \* micrometres, end point vs start in space
      <<"Alone", r.alone>>,
      <<"InputsUnchanged", r.unchanged>> })
    [] r.kind = "horizon" -> Violated({
      <<"Azimuth", Azimuth(r.e) >= 0 => NearCirc(r.az, Azimuth(r.e) * UD, 360 * UD, 1) /\ r.az >= 0 /\ r.az < 360 * UD>>,
      <<"Elevation", Elevation(r.e) # -999 => Near(r.el, Elevation(r.e) * UD, 1)>>,
      <<"Zenith", Near(r.zen + r.el, 90 * UD, 2)>>,
      <<"Distance", Near(r.d2, (Dot(r.e, r.e)) * 1000, 1)>> })
    [] r.kind = "dms" -> Violated({         \* angle = num / 3600 degrees
      <<"DmsParts", /\ Near(r.m % 10000, 0, 0) /\ r.m >= 0 /\ r.m < 600000 /\ r.s >= 0 /\ r.s <= 600000
                    /\ Near(Abs(r.num), Abs(r.d) * 3600 + (r.m \div 10000) * 60 + (r.s + 5000) \div 10000, 1)
                    /\ (r.num < 0 => r.neg \/ r.d = 0)>>,
      <<"DmsRoundTrip", Near(r.back, 0, 5)>> })
    [] r.kind = "fromdms" -> Violated({     \* degrees, minutes, seconds given
      <<"FromDms", Near(r.val, (IF r.neg THEN -1 ELSE 1) * (r.d * 3600 + r.m * 60 + r.s), 0)>> })
    [] r.kind = "wrap" -> Violated({
      <<"WrapRange", r.w >= -180 * UD /\ r.w <= 180 * UD>>,
      <<"WrapCongruent", NearCirc(r.w, r.lon * 1000, 360 * UD, 1)>> })
    [] r.kind = "ellipsoid" -> Violated({
      <<"SamePointOtherDatum", Near(r.dlat, 0, 20) /\ Near(r.dh, 0, 20)>>,
      <<"BackAgain", Near(r.blat, 0, 20) /\ Near(r.bh, 0, 20)>>,
      <<"EquatorAndPole", /\ r.lat = 0 => Near(r.shift, r.da, 1)
                          /\ Abs(r.lat) = 90 => Near(r.shift, r.db, 1)>>,
      <<"DeltaH", Near(r.delta, r.shift, 1)>>,
      <<"InputsUnchanged", r.unchanged>> })
    [] r.kind = "scale" -> Violated({
      <<"UnitAtReference", (Abs(r.lat) = r.ref) => Near(r.dist, 1000000, 1) /\ Near(r.area, 1000000, 1)>>,
      <<"AreaIsSquare", Near(r.area, r.sq, 2)>>,
      <<"Symmetric", Near(r.dist, r.mirror, 1)>>,
      <<"GrowsPoleward", r.dist <= r.poleward + 1>>,
      <<"PublishedScale", (r.ref = 70 /\ r.lat >= 0 /\ r.lat \in {60, 70, 80, 90}) =>
            Near(r.dist, CASE r.lat = 60 -> 962068 [] r.lat = 70 -> 1000000 [] r.lat = 80 -> 1023247 [] OTHER -> 1031079, 1)>>,
      <<"Alone", r.alone>> })
    [] r.kind = "table" -> Violated({       \* metres at tabulated latitudes, WGS84, on the prime meridian
      <<"PublishedPosition", Near(r.p, r.pm, 1) /\ Near(r.z, r.zm, 1)>> })
    [] OTHER -> {"UnknownKind"}
Failing(r) == IF r.status # "ok" THEN {"CallCompletes"} ELSE Clauses(r)
TraceInit == l = 1
TraceNext == l <= Len(Trace) /\ Report(l, Failing(Trace[l])) /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_l
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
