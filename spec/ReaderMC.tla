------------------------------- MODULE ReaderMC -------------------------------
(* Every small grid, window and query through the pipeline, step by step.      *)
EXTENDS Reader, TLC, Json, IOUtils, CSV
CONSTANTS P, Pad, Design, EmitOn, LoStep, QStep
VARIABLES g, t, win, q, pc, cols, ans
vars == <<g, t, win, q, pc, cols, ans>>
Grids == {x \in [W : {2, 3, P \div 4 - 1, P \div 4}, p0 : {0, 2, 2 - P \div 2, 0 - P \div 2, P - 4}, P : {P}, dup : BOOLEAN] :
             /\ x.dup => 4 * x.W = P
             /\ 4 * x.W = P => x.p0 <= P \div 2
             /\ x.p0 + 4 * (x.W - 1) < P + P \div 2}
NoWin == [crop |-> FALSE, lo |-> 0, hi |-> 0]
Windows == {NoWin} \cup {x \in {[crop |-> TRUE, lo |-> a, hi |-> a + w] : a \in {a \in (0 - P \div 2) .. P : a % LoStep = 0}, w \in {0, 1, 5, P \div 2, P - 9, P - 8, P - 5, P - 1, P}} : x.hi <= P}
Init == /\ g \in Grids /\ t \in {"z", "u"} /\ ~(t = "u" /\ g.dup) /\ win \in Windows
        /\ q = 0 /\ pc = "file" /\ cols = Cols(g) /\ ans = {}
StepCrop == pc = "file" /\ pc' = "cropped"
        /\ cols' = (IF win.crop THEN Crop(g, win.lo, win.hi, Pad) ELSE cols) /\ UNCHANGED <<g, t, win, q, ans>>
StepExtend == pc = "cropped" /\ pc' = "ready"
        /\ cols' = (CASE t = "z" -> Extend(g, cols)
                      [] t = "u" -> LET st == Stagger(g, cols) IN Extend(g, st))
        /\ UNCHANGED <<g, t, win, q, ans>>
(* a query anywhere in the window (or, uncropped, in any turn), given in some convention *)
Queries == IF win.crop THEN {a \in win.lo .. win.hi : (a - win.lo) % QStep = 0 \/ a = win.hi} ELSE (0 - P \div 2) .. P
Ask == /\ pc = "ready" /\ pc' = "answered"
       /\ \E a \in Queries : \E turn \in (IF win.crop THEN {0, P, 0 - P} ELSE {0}) :
            LET b == a + turn IN
            /\ b >= 0 - P \div 2 /\ b <= P
            /\ q' = b
            /\ ans' = (CASE Design = "each" -> Locate(cols, Wrap(g, cols, b))
                         [] Design = "crop keeps convention" -> Locate(cols, IF win.crop THEN b ELSE Wrap(g, cols, b))
                         [] Design = "half turn" -> Locate(cols, IF b < 0 /\ Last(cols) > P \div 2 THEN b + P
                                                               ELSE IF b > P \div 2 /\ First(cols) < 0 THEN b - P ELSE b))
       /\ UNCHANGED <<g, t, win, cols>>
Next == StepCrop \/ StepExtend \/ Ask
Spec == Init /\ [][Next]_vars
(* queries between minus half a turn and one turn (both conventions of longitude) *)
Lawful == pc = "answered" => ans = Law(g, t, q)
(* the columns never lose the lattice spacing, so that interpolation between
   neighbouring columns is interpolation between neighbouring nodes *)
Contiguous == \A i \in 1 .. Len(cols) - 1 : cols[i + 1].p - cols[i].p = 4
Emit == (EmitOn /\ pc = "cropped" /\ win.crop) =>
          CSVWrite("%1$s", <<ToJson([g |-> g, t |-> t, lo |-> win.lo, hi |-> win.hi, n |-> Len(cols)])>>, IOEnv.OUT)
=============================================================================
