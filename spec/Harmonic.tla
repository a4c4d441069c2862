------------------------------- MODULE Harmonic -------------------------------
(* Current ellipses and the harmonic analysis.                                   *)
(* An ellipse (major, minor, inclination I, phase F) is the hodograph            *)
(*   u(a) + i v(a) = e^{iI} (major cos(a - F) + i minor sin(a - F))              *)
(* of the constituents u(a) = Re(u e^{ia}), v(a) = Re(v e^{ia}); positive minor: *)
(* anticlockwise.  Lattice: angles multiples of 15 degrees.                      *)
EXTENDS Integers, Sequences
C15 == <<1000, 966, 866, 707, 500, 259, 0, -259, -500, -707, -866, -966, -1000, -966, -866, -707, -500, -259, 0, 259, 500, 707, 866, 966>>
Cs(d) == C15[((d \div 15) % 24) + 1]
Sn(d) == Cs(d - 90)
Mul(a, b) == <<a[1] * b[1] - a[2] * b[2], a[1] * b[2] + a[2] * b[1]>>
(* both in 1e-6 of the unit of the axes *)
UOf(p) == Mul(<<p.maj * Cs(p.incl), p.min * Sn(p.incl)>>, <<Cs(p.phase), -Sn(p.phase)>>)
VOf(p) == Mul(<<p.maj * Sn(p.incl), -(p.min * Cs(p.incl))>>, <<Cs(p.phase), -Sn(p.phase)>>)
(* canonical parameters: inclination in [0,180), the other half turn goes to the phase *)
Canon(p) == [p EXCEPT !.incl = @ % 180, !.phase = (p.phase + (IF (p.incl % 360) >= 180 THEN 180 ELSE 0)) % 360]
=============================================================================
