------------------------------- MODULE EarthTrace -------------------------------
(* Answers of the functions of the solid earth, judged by the algebra of Earth.   *)
EXTENDS Earth, TraceLib
VARIABLE l
All(s) == \A i \in 1 .. Len(s) : s[i]
Failing(r) ==
  IF r.status # "ok" THEN {"CallCompletes"}
  ELSE CASE r.kind = "lpe" -> Violated({
              (* v: value at the latitude, eq: at the equator, parts: of each constituent alone (1e-7 m) *)
              <<"LatitudeFactor", Near(r.v, LpeFrom(r.lat, r.eq), 4)>>,
              <<"SumOfConstituents", Near(r.v, SumSeq(r.parts), 12)>>,
              <<"TimeAlone", r.eq = r.eq2>> })
         [] r.kind = "lpt" -> LET e == LoadPole(r.h, r.el, r.kc, r.kl, r.mx, r.my) IN Violated({
              <<"RadialOfWobble", Near(r.r, e.r, 12)>>, <<"SouthOfWobble", Near(r.s, e.s, 8)>>, <<"EastOfWobble", Near(r.e, e.e, 8)>> })
         [] r.kind = "opt" -> Violated({
              <<"ComponentOfCoefficient", Near(r.v, OceanPole(r.mx, r.my, r.u), 12)>>,
              <<"OtherComponentsZero", r.others = <<0, 0>> >> })
         [] r.kind = "perm" -> Violated({
              <<"PermanentRadial", Near(r.r, PermR(r.lat), 60)>>, <<"PermanentNorth", Near(r.n, PermN(r.lat), 40)>>,
              <<"PermanentEast", Near(r.e, 0, 2)>>, <<"UseTideSystem", r.same>> })
         [] r.kind = "set" -> Violated({
              <<"RadialOfBodies", Near(r.r, TideR(r.fs, r.ks, r.fm, r.km), 450)>>,
              <<"EastOfBodies", Near(r.e, TideE(r.fs, r.ks, r.fm, r.km), 250)>>,
              <<"NorthOfBodies", Near(r.n, 0, 250)>> })
         [] r.kind = "map" ->
              (* quarter offsets fx, fy in the cell of the four nodes; nearest has no ties here *)
              LET fx == r.fx  fy == r.fy
                  b == (4 - fx) * (4 - fy) * r.c[1] + fx * (4 - fy) * r.c[2] + (4 - fx) * fy * r.c[3] + fx * fy * r.c[4]
                  w == IF r.meth = "nearest" THEN 16 * r.c[1 + (IF fx > 2 THEN 1 ELSE 0) + (IF fy > 2 THEN 2 ELSE 0)] ELSE b
              IN Violated({ <<"MapValue", Near(r.v, w, 2)>> })
TraceInit == l = 1
TraceNext == l <= Len(Trace) /\ Report(l, Failing(Trace[l])) /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_l
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
