--------------------------------- MODULE Sky ---------------------------------
(* Celestial and terrestrial frames, the fundamental arguments, and where the   *)
(* Sun and the Moon are.                                                        *)
(* A direction is held in one of six frames; a step carries it from one frame   *)
(* to the next.  Published numbers: the test values distributed with the IAU    *)
(* SOFA library (radians, scaled), eclipse canons, almanacs.                     *)
EXTENDS Integers, Sequences
FrameSeq == <<"GCRS", "J2000", "mean", "true", "rotated", "ITRS">>
StepSeq == <<"bias", "precession", "nutation", "spin", "polar">>
Steps == {StepSeq[k] : k \in 1 .. 5}
Pos(s) == CHOOSE k \in 1 .. 5 : StepSeq[k] = s
(* a move is <<step, +1>> (towards the Earth) or <<step, -1>> (back) *)
From(m) == IF m[2] = 1 THEN Pos(m[1]) ELSE Pos(m[1]) + 1
To(m) == IF m[2] = 1 THEN Pos(m[1]) + 1 ELSE Pos(m[1])
RECURSIVE Goes(_, _)
Goes(f, w) == IF w = <<>> THEN f ELSE IF From(Head(w)) # f THEN 0 ELSE Goes(To(Head(w)), Tail(w))
(* ---- published matrices, times 1e8 ---- *)
Matrices == [
  (* precession times bias, 1996-02-10 *)
  PB |-> << <<99999955, 86954, 37797>>, <<-86954, 99999962, -14>>, <<-37797, -19, 99999993>> >>,
  (* nutation for given obliquity, longitude and obliquity angles *)
  N |-> << <<100000000, 884, 383>>, <<-884, 99999914 + 86, -4063>>, <<-383, 4063, 100000000>> >>,
  (* polar motion, 2006-01-01 *)
  W |-> << <<100000000, 0, 26>>, <<0, 100000000, -186>>, <<-26, 186, 100000000>> >>,
  (* celestial to terrestrial, UT1 = 2006-01-01 0h *)
  C2T |-> << <<-18103321, 98347698, 6556>>, <<-98347681, -18103322, 57498>>, <<57735, 3962, 99999983>> >> ]
MatTol == [PB |-> 2, N |-> 2, W |-> 2, C2T |-> 4]
(* ---- published angles: value and tolerance in the unit named ---- *)
Angles == [
  l |-> <<513236975, 2>>, lp |-> <<622679797, 2>>, F |-> <<25977114, 2>>, D |-> <<194670921, 2>>, Om |-> <<30956687, 2>>,  \* 1e-8 rad, t = 0.8
  obliquity |-> <<409074923, 2>>,        \* 1e-9 rad, 2007-10-15
  dpsi |-> <<-963091, 2500>>,            \* 1e-11 rad, 2006-01-01 (five milliarcseconds)
  deps |-> <<4063239, 2500>>,
  complement |-> <<2046, 8>>,            \* 1e-12 rad, 2006-01-01
  gast |-> <<175416614, 15>> ]           \* 1e-8 rad, UT1 = 2006-01-01 0h
(* ---- eclipses: instant of greatest eclipse, gamma * 1e4 ---- *)
X(at, g) == [at |-> at, g |-> g]
Solar == << X("1991-07-11T19:06", -41), X("1994-11-03T13:39", -3522), X("1995-10-24T04:32", 3518), X("1997-03-09T01:23", 9183),
            X("1998-02-26T17:28", 2391), X("1999-08-11T11:03", 5062), X("2001-06-21T12:03", -5701), X("2003-11-23T22:49", -9638),
            X("2006-03-29T10:11", 3843), X("2008-08-01T10:21", 8307), X("2009-07-22T02:35", 698), X("2010-07-11T19:33", -6788),
            X("2012-11-13T22:11", -3719), X("2016-03-09T01:57", 2609), X("2017-08-21T18:25", 4367), X("2019-07-02T19:23", -6466),
            X("2020-12-14T16:13", -2939), X("2024-04-08T18:17", 3431) >>
Lunar == << X("2000-01-21T04:44", -2957), X("2003-05-16T03:40", 4123), X("2004-10-28T03:04", 2846), X("2007-03-03T23:21", 3175),
            X("2010-12-21T08:17", 3214), X("2011-06-15T20:13", 897), X("2015-09-28T02:47", -3296), X("2018-07-27T20:22", 1168),
            X("2019-01-21T05:12", 3684), X("2022-11-08T10:59", 2570) >>
(* ---- seasons: declination of the Sun in millidegrees ---- *)
Seasons == << X("1990-06-21T15:33", 23440), X("2000-03-20T07:35", 0), X("2000-06-21T01:48", 23439), X("2000-09-22T17:28", 0),
              X("2000-12-21T13:37", -23439), X("2020-03-20T03:50", 0), X("2020-06-20T21:44", 23437), X("2020-12-21T10:02", -23437) >>
(* ---- longitude of the Sun at mean noon (equation of time), millidegrees ---- *)
Noon == << X("2019-02-11T12:00", 3560), X("2019-11-03T12:00", -4110), X("2019-04-15T12:00", 0), X("2019-07-26T12:00", 1630),
           X("2019-09-01T12:00", 0), X("2019-12-25T12:00", 0), X("2019-02-11T18:00", -86440), X("2019-04-16T00:00", 180000),
           X("2019-09-01T06:00", 90000) >>
(* ---- distances: the Sun in 1000 km, the Moon in km ---- *)
SunFar == << X("2020-01-05T07:48", 147091), X("2019-07-04T22:11", 152104) >>
MoonFar == << X("2016-11-14T11:22", 356509), X("2018-01-01T21:49", 356565), X("2018-01-15T02:10", 406464), X("2019-02-19T09:06", 356761), X("2019-02-05T09:26", 406555) >>
(* ---- extreme declinations of the Moon within a month, millidegrees ---- *)
MoonDec == << X("2006-09-01T00:00", 28720), X("2015-10-01T00:00", 18170) >>
(* ---- the five Delaunay arguments and the lunar hour angle as combinations of  *)
(* tau s h p N' ps and the hour of day (15 degrees each)                          *)
Combination == [ l |-> <<0, 1, 0, -1, 0, 0, 0>>, lp |-> <<0, 0, 1, 0, 0, -1, 0>>, F |-> <<0, 1, 0, 0, 1, 0, 0>>,
                 D |-> <<0, 1, -1, 0, 0, 0, 0>>, Om |-> <<0, 0, 0, 0, -1, 0, 0>>, tau |-> <<0, -1, 1, 0, 0, 0, 1>> ]
Absz(v) == IF v < 0 THEN -v ELSE v
=============================================================================
