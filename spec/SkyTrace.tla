------------------------------- MODULE SkyTrace -------------------------------
EXTENDS Sky, Moon, TraceLib
VARIABLE l
MatClauses(r) == Violated({
   <<"PublishedMatrix", \A i, j \in 1 .. 3 : Near(r.obs[i][j], Matrices[r.name][i][j], MatTol[r.name])>> })
AngClauses(r) == Violated({ <<"PublishedAngle", Near(r.obs, Angles[r.name][1], Angles[r.name][2])>> })
RotClauses(r) == Violated({
   <<"Orthonormal", r.ortho <= r.tol>>,
   <<"ProperRotation", Near(r.det, 1000000, 2)>>,
   <<"EachInstantOnItsOwn", r.alone <= 2>>,
   <<"SmallAngle", r.angle <= r.most>> })
WalkClauses(r) == Violated({
   <<"WalkIsTyped", Goes(r.start, r.walk) = r.at>>,
   <<"EndsDecide", r.resid <= 20>> })
GastClauses(r) == Violated({
   <<"EquationOfEquinoxes", Near(r.eqeq, r.want, 1)>>,
   <<"FractionOfTurn", r.turn >= 0 /\ r.turn <= 1000000>>,
   <<"Bounded", Abs(r.eqeq) <= 18500>>,
   <<"SiderealRate", Near(r.rate, 366242, 3)>> })
(* r.sep, r.ddec in millidegrees; g * 1e4 earth radii at the distance of the Moon *)
SolarClauses(r) == LET g == Solar[r.k].g IN LET a == Absz(g) \div 10 IN Violated({
   <<"EclipseSeparation", r.sep >= ((a * 87) \div 100) - 30 /\ r.sep <= ((a * 104) \div 100) + 40>>,
   <<"EclipseSide", a > 100 => (IF g > 0 THEN r.ddec ELSE -r.ddec) >= ((a * 80) \div 100)>> })
LunarClauses(r) == LET a == Absz(Lunar[r.k].g) \div 10 IN Violated({
   <<"EclipseSeparation", r.sep >= ((a * 87) \div 100) - 80 /\ r.sep <= ((a * 104) \div 100) + 80>> })
SunClauses(r) == Violated({
   <<"SunDeclination", r.what = "season" => Near(r.dec, Seasons[r.k].g, 30)>>,
   <<"SunLongitude", r.what = "noon" => NearCirc(r.lon, Noon[r.k].g, 360000, 420)>>,
   <<"SunDistance", r.what = "far" => Near(r.dist, SunFar[r.k].g, 100)>> })
MoonClauses(r) == Violated({
   <<"MoonDistance", r.what = "far" => Near(r.dist, MoonFar[r.k].g, 400)>>,
   <<"MoonDeclination", r.what = "dec" => Near(r.dec, MoonDec[r.k].g, 150) /\ Near(-r.low, MoonDec[r.k].g, 150)>>,
   <<"MoonRange", r.what = "range" => r.least >= 356000 /\ r.most <= 407000 /\ r.most - r.least > 40000>> })
(* angles in 1e-4 degrees *)
FundClauses(r) ==
   LET want == SumSeq([k \in 1 .. 7 |-> Combination[r.name][k] * r.args[k]]) IN
   Violated({ <<"ArgumentsCombine", NearCirc(r.obs, want % 3600000, 3600000, r.tol)>>,
              <<"InOneTurn", r.obs >= 0 /\ r.obs <= 3600000>> })
(* the correction of the mean longitude of the Moon is the general precession in longitude, which the
   others do not have: arcseconds / 100 at k thousandths of a century (Lieske et al. 1977) *)
Drift(k) == (502910 * k) \div 1000 + (111 * k * k) \div 1000000
DriftClauses(r) == Violated({
   <<"GeneralPrecession", Near(r.obs, Drift(r.k), 6)>>,
   <<"OthersWithout", r.others>> })
EphClauses(r) == Violated({
   <<"KernelVectorRotated", r.resid <= 50>>,          \* milliarcseconds
   <<"DistanceKept", r.ddist <= 10>>,                 \* metres per million kilometres
   <<"NearApproximate", r.approx <= 900>>,            \* millidegrees
   <<"EachInstantOnItsOwn", r.alone <= 2>> })
(* seconds of arc and kilometres; sines and cosines of the rows in 1e-4 *)
TheoryClauses(r) == Violated({
   <<"LongitudeOfTheory", r.what = "moon" => NearCirc(r.lon, Series(Longitude, r.wl) % 1296000, 1296000, 4)>>,
   <<"LatitudeOfTheory", r.what = "moon" => Near(r.lat, Series(Latitude, r.wb), 4)>>,
   <<"DistanceOfTheory", r.what = "moon" => Near(r.dist, Mean + Series(Distance, r.wr), 4)>>,
   <<"SunLongitudeOfTheory", r.what = "sun" => NearCirc(r.lon, Series(SunLongitude, r.wl) % 1296000, 1296000, 3)>>,
   <<"SunInEcliptic", r.what = "sun" => Abs(r.lat) <= 1>>,
   <<"SunDistanceOfTheory", r.what = "sun" => Near(r.dist, SunMean + Series(SunDistance, r.wr), 3)>> })
Failing(r) == IF r.status # "ok" THEN {"CallCompletes"}
   ELSE CASE r.kind = "matrix" -> MatClauses(r) [] r.kind = "angle" -> AngClauses(r) [] r.kind = "rot" -> RotClauses(r)
          [] r.kind = "walk" -> WalkClauses(r) [] r.kind = "gast" -> GastClauses(r) [] r.kind = "solar" -> SolarClauses(r)
          [] r.kind = "lunar" -> LunarClauses(r) [] r.kind = "sun" -> SunClauses(r) [] r.kind = "moon" -> MoonClauses(r)
          [] r.kind = "fund" -> FundClauses(r) [] r.kind = "drift" -> DriftClauses(r) [] r.kind = "theory" -> TheoryClauses(r) [] OTHER -> EphClauses(r)
TraceInit == l = 1
TraceNext == l <= Len(Trace) /\ Report(l, Failing(Trace[l])) /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_l
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
