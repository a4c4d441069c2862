------------------------------ MODULE FramesMC ------------------------------
(* One position walked through the frames along every path up to a length.     *)
EXTENDS Frames, TLC, Json, IOUtils, CSV
CONSTANT MaxLen
Heights == {0, 1234, -400}
Methods == {"moritz", "bowring", "zhu"}
Origins == {<<0, 0, 0>>, <<90, 0, 1000>>, <<270, 90, 0>>, <<180, -90, -500>>, <<-90, 0, 0>>}
VARIABLES pos, start, frame, v, o, path
vars == <<pos, start, frame, v, o, path>>
Init == /\ pos \in {<<n, t, h>> : n \in Lons, t \in Lats, h \in Heights}
        /\ frame \in {"geod", "cart"} /\ start = frame
        /\ v = (IF frame = "geod" THEN pos ELSE Cart(pos)) /\ o = <<0, 0, 0>> /\ path = <<>>
Do(f, w, oo, step) == frame' = f /\ v' = w /\ o' = oo /\ path' = Append(path, step) /\ UNCHANGED <<pos, start>>
St(op, m, oo) == [op |-> op, method |-> m, o |-> oo]
Step == \/ frame = "geod" /\ Do("cart", Cart(v), o, St("to_cartesian", "", <<0, 0, 0>>))
        \/ frame = "cart" /\ \E m \in Methods : Do("geod", Geod(v), o, St("to_geodetic", m, <<0, 0, 0>>))
        \/ frame = "cart" /\ Do("sphere", Sphere(v), o, St("to_sphere", "", <<0, 0, 0>>))
        \/ frame = "sphere" /\ Do("cart", FromSphere(v), o, St("from_sphere", "", <<0, 0, 0>>))
        \/ frame = "cart" /\ \E oo \in Origins : Do("enu", ToENU(v, oo), oo, St("to_ENU", "", oo))
        \/ frame = "enu" /\ Do("cart", FromENU(v, o), o, St("from_ENU", "", o))
Next == Len(path) < MaxLen /\ Step
Spec == Init /\ [][Next]_vars
(* whatever the path, the state stands for the same point of space *)
SamePoint == Denote(frame, v, o) = Cart(pos)
(* every rotation is orthonormal and right handed *)
Orthonormal == \A oo \in Origins : \A i, j \in 1 .. 3 : Dot(Rot(oo)[i], Rot(oo)[j]) = (IF i = j THEN 1 ELSE 0)
UpIsUp == \A oo \in Origins : ToENU(Cart(<<oo[1], oo[2], oo[3] + 7>>), oo) = <<0, 0, 7>>
Emit == (pos = <<0, 0, 0>> /\ Len(path) = MaxLen) =>
           CSVWrite("%1$s", <<ToJson([start |-> start, path |-> path])>>, IOEnv.OUT)
=============================================================================
