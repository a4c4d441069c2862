--------------------------------- MODULE Earth ---------------------------------
(* Tides of the solid earth: long-period equilibrium tide, load and ocean pole  *)
(* tides, permanent tide, degree-two solid earth tide, on lattices of angles.   *)
(* Angles are multiples of 15 degrees (colatitude, longitude) or one of the     *)
(* latitudes 0, 30, 45, 60, 90 whose squared sine is rational.                  *)
EXTENDS Integers, Sequences, FiniteSets
AbsV(x) == IF x < 0 THEN -x ELSE x
(* rounded quotient, any sign *)
Quot(a, b) == IF a >= 0 THEN (a + (b \div 2)) \div b ELSE -((-a + (b \div 2)) \div b)
C15 == <<10000, 9659, 8660, 7071, 5000, 2588, 0>>
(* cosine and sine of 15 k degrees, times 10000 *)
Cos(k) == LET m == ((k % 24) + 24) % 24  f == IF m > 12 THEN 24 - m ELSE m
          IN IF f <= 6 THEN C15[f + 1] ELSE -C15[12 - f + 1]
Sin(k) == Cos(k - 6)
Lats == {-90, -60, -45, -30, 0, 30, 45, 60, 90}
(* second Legendre polynomial of the sine of a latitude, times 8 *)
P2(lat) == CASE AbsV(lat) = 0 -> -4 [] AbsV(lat) = 30 -> -1 [] AbsV(lat) = 45 -> 2 [] AbsV(lat) = 60 -> 5 [] AbsV(lat) = 90 -> 8
(* the equilibrium tide is a function of time by P2 of the latitude *)
(* lat value from the value at the equator *)
LpeFrom(lat, eq) == Quot(-P2(lat) * eq, 4)
-----------------------------------------------------------------------------
(* load pole tide (spherical components, micrometres) of a wobble mx, my in 1e-4 *)
(* arcseconds, Love numbers in 1e-4, for the Earth's mean radius                 *)
Wob(mx, my, a, b) == Quot(mx * a + my * b, 10000)
LoadPole(h, el, kc, kl, mx, my) ==
  LET cr == Quot(53471 * h, 10000)  cl == Quot(2 * 53471 * el, 10000)
      m == Wob(mx, my, Cos(kl), Sin(kl))  n == Wob(mx, -my, Sin(kl), Cos(kl))
  IN [r |-> -Quot(cr * Quot(m * Sin(2 * kc), 10000), 10000),
      s |-> -Quot(cl * Quot(m * Cos(2 * kc), 10000), 10000),
      e |-> Quot(cl * Quot(n * Cos(kc), 10000), 10000)]
(* ocean pole tide of one component with complex coefficient u (micrometres) *)
OceanPole(mx, my, u) ==
  LET p == Quot(mx * 6870 + my * 36, 10000)  q == Quot(my * 6870 - mx * 36, 10000)
  IN Quot(25886 * p, 10000) * u[1] + Quot(25886 * q, 10000) * u[2]
(* permanent tide: mean-tide minus tide-free, radial and north (1e-7 m) *)
PermR(lat) == LET h == 60780 - Quot(60 * P2(lat), 8) IN -Quot(Quot(19844 * h, 1000) * P2(lat), 8)
S2(lat) == CASE lat \in {0, 90, -90} -> 0 [] lat \in {30, 60} -> 866 [] lat \in {-30, -60} -> -866 [] lat = 45 -> 1000 [] lat = -45 -> -1000
PermN(lat) == LET el == 8470 + Quot(20 * P2(lat), 8) IN -Quot(Quot(29767 * el, 1000) * S2(lat), 1000)
(* degree-two tide on the equator of bodies on the equator: f in 1e-5 m for each,  *)
(* k the angle (30 degrees) between the point and the body                         *)
TideR(fs, ks, fm, km) == Quot(Quot(fs * 6081, 10000) * (3 * Quot(Cos(2 * ks) * Cos(2 * ks), 10000) - 10000), 20000)
                       + Quot(Quot(fm * 6081, 10000) * (3 * Quot(Cos(2 * km) * Cos(2 * km), 10000) - 10000), 20000)
TideE(fs, ks, fm, km) == Quot(3 * Quot(fs * 846, 10000) * Sin(4 * ks), 20000) + Quot(3 * Quot(fm * 846, 10000) * Sin(4 * km), 20000)
=============================================================================
