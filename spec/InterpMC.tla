------------------------------- MODULE InterpMC -------------------------------
(* The interpolators as a step machine:  Locate -> Weigh -> Combine, checked    *)
(* against the ideal cell-free definition for every mask pattern, every query   *)
(* lattice point, and every admissible cell choice of the Locate step.          *)
EXTENDS Interp, TLC, Json, IOUtils, CSV
CONSTANTS NX, NY, Vals, EmitOn
ValsDefault == <<1, 5, 17, 53, 101, 29, 83, 7, 61, 37, 11, 97>>
VARIABLES mask, q, pc, cell, w, res
vars == <<mask, q, pc, cell, w, res>>
N == NX * NY
Z == [k \in 1 .. N |-> Vals[k]]
Queries == (-1 .. (NX - 1) * D + 1) \X (-1 .. (NY - 1) * D + 1)
Init == /\ mask \in [1 .. N -> BOOLEAN] /\ q = <<0, 0>> /\ pc = "new"
        /\ cell = <<-1, -1>> /\ w = <<0, 0, 0, 0>> /\ res = <<0, 0>>
Choose == pc = "new" /\ \E p \in Queries : q' = p /\ pc' = "locate" /\ UNCHANGED <<mask, cell, w, res>>
Locate == /\ pc = "locate"
          /\ IF ~Inside(NX, NY, q[1], q[2])
             THEN pc' = "done" /\ res' = <<0, 0>> /\ UNCHANGED cell
             ELSE /\ \E cx \in Cells(NX, q[1]), cy \in Cells(NY, q[2]) : cell' = <<cx, cy>>
                  /\ pc' = "weigh" /\ UNCHANGED res
          /\ UNCHANGED <<mask, q, w>>
Weigh == /\ pc = "weigh" /\ w' = [k \in 1 .. 4 |-> Weight(cell, k - 1, q[1], q[2])]
         /\ pc' = "combine" /\ UNCHANGED <<mask, q, cell, res>>
Combine == /\ pc = "combine"
           /\ LET V == {k \in 1 .. 4 : ~At(mask, NX, Corner(cell, k - 1)[1], Corner(cell, k - 1)[2]) /\ w[k] > 0}
                  wz == [k \in V |-> w[k] * At(Z, NX, Corner(cell, k - 1)[1], Corner(cell, k - 1)[2])]
              IN res' = <<SumOver(wz, V), SumOver(w, V)>>
           /\ pc' = "done" /\ UNCHANGED <<mask, q, cell, w>>
Next == Choose \/ Locate \/ Weigh \/ Combine
Spec == Init /\ [][Next]_vars
(* same rational, and validity independent of the cell chosen *)
Eq(a, b) == (a[2] = 0 /\ b[2] = 0) \/ (a[2] # 0 /\ b[2] # 0 /\ a[1] * b[2] = b[1] * a[2])
RouteIsIdeal == pc = "done" => Eq(res, Ideal(Z, mask, NX, NY, q[1], q[2]))
(* convexity: the result stays between the extreme valid values *)
Convex == (pc = "done" /\ res[2] > 0) =>
            LET V == {n \in Support(NX, NY, q[1], q[2]) : ~At(mask, NX, n[1], n[2])}
            IN /\ \E n \in V : At(Z, NX, n[1], n[2]) * res[2] <= res[1]
               /\ \E n \in V : At(Z, NX, n[1], n[2]) * res[2] >= res[1]
StrictImpliesIdeal == pc = "done" =>
            LET s == Strict(Z, mask, NX, NY, q[1], q[2]) IN s[2] # 0 => Eq(s, res)
NodeExact == (pc = "done" /\ q[1] % D = 0 /\ q[2] % D = 0 /\ Inside(NX, NY, q[1], q[2])) =>
            LET i == q[1] \div D  j == q[2] \div D IN
            IF At(mask, NX, i, j) THEN res[2] = 0 ELSE res[1] = res[2] * At(Z, NX, i, j)
Emit == (EmitOn /\ pc = "new") =>
            CSVWrite("%1$s", <<ToJson([nx |-> NX, ny |-> NY, m |-> mask])>>, IOEnv.OUT)
=============================================================================
