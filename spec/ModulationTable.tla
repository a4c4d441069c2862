---------------------------- MODULE ModulationTable ----------------------------
(* Sines at multiples of 15 degrees and, for the longitude of the node at those,  *)
(* the elements of the spherical triangle of ecliptic, equator and lunar orbit.   *)
EXTENDS Integers, Sequences
SinT == <<0, 2588, 5000, 7071, 8660, 9659, 10000, 9659, 8660, 7071, 5000, 2588, 0, -2588, -5000, -7071, -8660, -9659, -10000, -9659, -8660, -7071, -5000, -2588>>
Sn(k) == SinT[(k % 24) + 1]
Cs(k) == SinT[((k + 6) % 24) + 1]
(* sI cI sin(I/2) cos(I/2) xi nu (1e-5 rad) sin2xi cos2xi sin nu cos nu sin2nu cos2nu *)
NodeT == <<
  <<4787, 8780, 2470, 9690, 0, 0, 0, 10000, 0, 10000, 0, 10000>>,
  <<4764, 8792, 2457, 9693, 4387, 4874, 876, 9962, 487, 9988, 973, 9953>>,
  <<4698, 8828, 2421, 9703, 8619, 9559, 1715, 9852, 954, 9954, 1900, 9818>>,
  <<4590, 8885, 2362, 9717, 12533, 13861, 2480, 9687, 1382, 9904, 2737, 9618>>,
  <<4444, 8958, 2282, 9736, 15945, 17568, 3135, 9496, 1748, 9846, 3442, 9389>>,
  <<4266, 9045, 2186, 9758, 18643, 20449, 3643, 9313, 2031, 9792, 3977, 9175>>,
  <<4064, 9137, 2077, 9782, 20384, 22249, 3965, 9180, 2207, 9754, 4304, 9026>>,
  <<3850, 9229, 1963, 9805, 20898, 22696, 4059, 9139, 2250, 9744, 4385, 8987>>,
  <<3636, 9315, 1850, 9827, 19915, 21523, 3879, 9217, 2136, 9769, 4173, 9088>>,
  <<3441, 9389, 1747, 9846, 17224, 18534, 3377, 9413, 1843, 9829, 3622, 9321>>,
  <<3282, 9446, 1664, 9861, 12779, 13704, 2528, 9675, 1366, 9906, 2707, 9627>>,
  <<3178, 9482, 1610, 9870, 6832, 7311, 1362, 9907, 730, 9973, 1457, 9893>>,
  <<3141, 9494, 1591, 9873, 0, 0, 0, 10000, 0, 10000, 0, 10000>>,
  <<3178, 9482, 1610, 9870, -6832, -7311, -1362, 9907, -730, 9973, -1457, 9893>>,
  <<3282, 9446, 1664, 9861, -12779, -13704, -2528, 9675, -1366, 9906, -2707, 9627>>,
  <<3441, 9389, 1747, 9846, -17224, -18534, -3377, 9413, -1843, 9829, -3622, 9321>>,
  <<3636, 9315, 1850, 9827, -19915, -21523, -3879, 9217, -2136, 9769, -4173, 9088>>,
  <<3850, 9229, 1963, 9805, -20898, -22696, -4059, 9139, -2250, 9744, -4385, 8987>>,
  <<4064, 9137, 2077, 9782, -20384, -22249, -3965, 9180, -2207, 9754, -4304, 9026>>,
  <<4266, 9045, 2186, 9758, -18643, -20449, -3643, 9313, -2031, 9792, -3977, 9175>>,
  <<4444, 8958, 2282, 9736, -15945, -17568, -3135, 9496, -1748, 9846, -3442, 9389>>,
  <<4590, 8885, 2362, 9717, -12533, -13861, -2480, 9687, -1382, 9904, -2737, 9618>>,
  <<4698, 8828, 2421, 9703, -8619, -9559, -1715, 9852, -954, 9954, -1900, 9818>>,
  <<4764, 8792, 2457, 9693, -4387, -4874, -876, 9962, -487, 9988, -973, 9953>> >>
=============================================================================
