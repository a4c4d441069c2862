-------------------------------- MODULE Datum --------------------------------
(* Published reference ellipsoids.  a in decimetres, 1/f times 1e6 (six          *)
(* decimals), GM in 1e6 m^3/s^2 (rounded), omega in 1e-11 rad/s.                 *)
EXTENDS Integers
E(a, rf, gm, om) == [a |-> a, rf |-> rf, gm |-> gm, om |-> om]
DefGM == 398600442
DefOm == 7292115
Published == [
  CLK66 |-> E(63782064, 294978698, DefGM, DefOm),
  NAD27 |-> E(63782064, 294978698, DefGM, DefOm),
  GRS80 |-> E(63781370, 298257222, 398600500, DefOm),
  NAD83 |-> E(63781370, 298257222, 398600500, DefOm),
  GRS67 |-> E(63781600, 298247167, 398603000, DefOm),
  WGS72 |-> E(63781350, 298260000, DefGM, DefOm),
  WGS84 |-> E(63781370, 298257224, DefGM, DefOm),
  ATS77 |-> E(63781350, 298257000, DefGM, DefOm),
  INTER |-> E(63783880, 297000000, DefGM, DefOm),
  KRASS |-> E(63782450, 298300000, DefGM, DefOm),
  MAIRY |-> E(63773402, 299324965, DefGM, DefOm),
  HGH80 |-> E(63782730, 298279411, DefGM, DefOm),
  TOPEX |-> E(63781363, 298257000, 398600442, DefOm),
  EGM96 |-> E(63781363, 298256415, 398600442, DefOm),
  IERS  |-> E(63781366, 298256420, DefGM, DefOm) ]
Names == DOMAIN Published
(* derived quantities published for two of them, in the unit named with each     *)
D(b, c, r1, rp, e1, e2, m, j2, ga, gb, k, u0) ==
  [b |-> b, c |-> c, r |-> r1, rp |-> rp, e1 |-> e1, e2 |-> e2, m |-> m, J2 |-> j2, ga |-> ga, gb |-> gb, k |-> k, u0 |-> u0]
(* b dm | linear eccentricity dm | mean radius dm | polar radius dm | e^2 1e-10 | *)
(* e'^2 1e-10 | m 1e-10 | J2 1e-10 | normal gravity (equator, pole) um/s^2 |      *)
(* gravity ratio 1e-8 | normal potential m^2/s^2 / 100                            *)
Derived == [
  WGS84 |-> D(63567523, 5218540, 63710008, 63995936, 66943800, 67394967, 34497865, 10826298, 9780325, 9832185, 193185, 626369),
  GRS80 |-> D(63567523, 5218540, 63710008, 63995936, 66943800, 67394968, 34497860, 10826300, 9780327, 9832186, 193185, 626369) ]
=============================================================================
