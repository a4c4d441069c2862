--------------------------------- MODULE Proj ---------------------------------
(* Coordinate reference systems of the models.  Polar projections are known on  *)
(* their symmetry: at k times 45 degrees from the central meridian, on a circle *)
(* whose radius depends on the latitude alone and is known at the latitude of   *)
(* true scale (stereographic) or everywhere (equidistant on a sphere).          *)
(* A projection object has a state [crs, dir]; the law is that a conversion     *)
(* depends on its arguments only.                                               *)
EXTENDS Integers, Sequences, FiniteSets
Systems == {"geo", "geo-nad83", "cats", "greenland", "arctic", "3031", "3413", "3857"}
Geographic(P) == P \in {"geo", "geo-nad83"}
South(P) == P \in {"cats", "3031"}
Polar(P) == P \in {"cats", "greenland", "arctic", "3031", "3413"}
Central(P) == CASE P = "cats" -> -70 [] P = "greenland" -> -45 [] P = "arctic" -> 270 [] P = "3031" -> 0 [] P = "3413" -> -45 [] OTHER -> 0
(* metres of one unit of the projection *)
Unit(P) == IF P \in {"cats", "greenland", "arctic"} THEN 1000 ELSE 1
(* radius of the circle of latitude, metres; 0: not listed.  On the sphere of the *)
(* Arctic models a degree is 111700 m (R = 6399938.5716113 m); N cos(lat) on WGS84 *)
Radius(P, lat) ==
  CASE P = "arctic" -> 111700 * (90 - lat)
    [] P \in {"cats", "3031"} -> (CASE lat = -71 -> 2082760 [] lat = -90 -> 0 [] OTHER -> -1)
    [] P \in {"greenland", "3413"} -> (CASE lat = 70 -> 2187928 [] lat = 90 -> 0 [] OTHER -> -1)
    [] OTHER -> -1
(* signs of x and y for k eighths of a turn east of the central meridian *)
SinSign(k) == LET j == k % 8 IN IF j \in {0, 4} THEN 0 ELSE IF j < 4 THEN 1 ELSE -1
CosSign(k) == LET j == k % 8 IN IF j \in {2, 6} THEN 0 ELSE IF j < 2 \/ j > 6 THEN 1 ELSE -1
Signs(P, k) == <<SinSign(k), IF South(P) THEN CosSign(k) ELSE 0 - CosSign(k)>>
Diagonal(k) == k % 2 = 1
Bug(design, name, right, wrong) == IF design = name THEN wrong ELSE right
-----------------------------------------------------------------------------
(* objects *)
New == [crs |-> "none", dir |-> "F"]
Opp(d) == IF d = "F" THEN "B" ELSE "F"
(* an operation: convert(P, d), get(P), transform(d; "" the direction of the object) *)
Step(o, op, design) ==
  CASE op.f = "convert" -> [crs |-> Bug(design, "stale system", op.P, IF o.crs = "none" THEN op.P ELSE o.crs), dir |-> Bug(design, "stale direction", op.d, IF o.crs = "none" THEN op.d ELSE o.dir)]
    [] op.f = "get" -> [o EXCEPT !.crs = op.P]
    [] OTHER -> o
(* what the operation computes: <<system, direction>> *)
Computes(o, op, design) ==
  LET n == Step(o, op, design) IN
  CASE op.f = "transform" -> <<n.crs, IF op.d = "" THEN n.dir ELSE op.d>>
    [] OTHER -> <<n.crs, n.dir>>
=============================================================================
