-------------------------------- MODULE EarthMC --------------------------------
(* A batch of (point, instant) requests is answered chunk by chunk, in any order *)
(* and split; every element is the value of its own point and instant.  The      *)
(* requests of the algebra of each tide (Algebra) are enumerated on its lattice. *)
EXTENDS Earth, TLC, Json, IOUtils, CSV
CONSTANTS Design, EmitOn, Big
VARIABLES req, k, out
vars == <<req, k, out>>
N == IF Big THEN 4 ELSE 3
(* a batch: for each element the point (of 3) and the instant (of 3); a cut *)
Batches == UNION {[kind : {"batch"}, n : {n}, pt : [1 .. n -> 1 .. 3], ti : [1 .. n -> 1 .. 3], cut : 0 .. n - 1] : n \in 1 .. N}
Outers == [kind : {"outer"}, np : {1, 2, 3}, nt : {1, 2, 3, 4}]
Algebra == [kind : {"lpe"}, lat : Lats, cons : 0 .. 15, inst : 1 .. 3]
           \cup [kind : {"lpt"}, kc : 0 .. 12, kl : 0 .. 23, inst : 1 .. 3, love : 0 .. 2]
           \cup [kind : {"opt"}, u : {<<a, b>> : a \in -2 .. 2, b \in -2 .. 2}, inst : 1 .. 3, comp : 1 .. 3]
           \cup [kind : {"perm"}, lat : Lats, kl : {0, 3, 7, 12, 19}, inst : 1 .. 3]
           \cup [kind : {"set"}, ks : 0 .. 11, km : 0 .. 11, kp : {0, 1, 4, 9}, inst : 1 .. 2]
Init == req \in (Batches \cup Outers \cup Algebra) /\ k = 0 /\ out = <<>>
IsBatch == req.kind = "batch"
Steps == IF IsBatch /\ req.cut > 0 THEN 2 ELSE 1
First == IF k = 0 THEN 1 ELSE req.cut + 1
Last == IF Steps = 2 /\ k = 0 THEN req.cut ELSE req.n
Value(i) == <<req.pt[i], CASE Design = "anchored" -> req.ti[First] [] OTHER -> req.ti[i]>>
Write == /\ IsBatch /\ k < Steps /\ k' = k + 1
         /\ out' = [i \in First .. Last |-> Value(i)] @@ out /\ UNCHANGED req
Spec == Init /\ [][Write]_vars
EachAlone == (IsBatch /\ k = Steps) => \A i \in 1 .. req.n : out[i] = <<req.pt[i], req.ti[i]>>
(* lattice algebra: symmetry of the hemispheres and of antipodal meridians *)
Symmetric == req.kind = "perm" => PermR(req.lat) = PermR(-req.lat) /\ PermN(req.lat) = -PermN(-req.lat)
Antipodal == req.kind = "lpt" => LET a == LoadPole(6207, 836, req.kc, req.kl, 1200, -700)  b == LoadPole(6207, 836, req.kc, req.kl + 12, 1200, -700)
              IN a.r = -b.r /\ a.s = -b.s /\ a.e = -b.e
(* maximum of the published amplitudes: 33 and 9 mm per arcsecond *)
Published == LET a == LoadPole(6207, 836, 3, 0, 10000, 0)  b == LoadPole(6207, 836, 0, 0, 0, -10000)
             IN AbsV(a.r + 33000) < 500 /\ AbsV(b.e - 9000) < 500
(* the mean over the sphere of functions of degree four in the sine: nodes at     *)
(* sin^2 = 0, 1/2, 1 with weights 6, 8, 1; the permanent tide keeps only the part  *)
(* of the latitude dependent Love number (0.2 % of its amplitude)                  *)
Mean15(f(_)) == 6 * f(0) + 8 * f(45) + f(90)
MeanZero == Mean15(P2) = 0 /\ AbsV(Mean15(PermR)) < 15 * 300
Emit == (EmitOn /\ k = 0) => CSVWrite("%1$s", <<ToJson(req)>>, IOEnv.OUT)
=============================================================================
