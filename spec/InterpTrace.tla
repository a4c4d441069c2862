----------------------------- MODULE InterpTrace ------------------------------
(* One event = one call of an interpolator on one grid with a batch of points. *)
EXTENDS Interp, TraceLib
VARIABLE l
S == 10000                                       \* observed values are scaled by S
RatOK(obs, r) == Fin(obs) /\ Abs(obs * r[2] - r[1] * S) <= r[2]
PointOK(r, k, z, obs) ==
  LET x == r.x[k]  y == r.y[k] IN
  CASE r.method = "bilinear" ->
         LET e == Ideal(z, r.m, r.nx, r.ny, x, y) IN
         IF e[2] = 0 THEN ~r.valid[k] ELSE r.valid[k] /\ RatOK(obs[k], e)
    [] r.method = "linear" ->
         LET e == Strict(z, r.m, r.nx, r.ny, x, y) IN
         IF e[2] = 0 THEN ~r.valid[k] ELSE r.valid[k] /\ RatOK(obs[k], e)
    [] r.method = "spline" ->
         (* the spline has no notion of "outside"; inside it is as strict as linear *)
         Inside(r.nx, r.ny, x, y) =>
         LET e == Strict(z, r.m, r.nx, r.ny, x, y) IN
         IF e[2] = 0 THEN ~r.valid[k] ELSE r.valid[k] /\ RatOK(obs[k], e)
    [] r.method = "nearest" ->
         LET C == Nearest(r.nx, r.ny, x, y) IN
         IF C = {} THEN ~r.valid[k]
         ELSE \E n \in C : /\ r.valid[k] = ~At(r.m, r.nx, n[1], n[2])
                           /\ r.valid[k] => Abs(obs[k] - S * At(z, r.nx, n[1], n[2])) <= 1
    [] OTHER -> FALSE
(* points that lie on a node, for naming the clause *)
OnNode(r, k) == r.x[k] % D = 0 /\ r.y[k] % D = 0 /\ Inside(r.nx, r.ny, r.x[k], r.y[k])
Pts(r) == 1 .. Len(r.x)
Failing(r) ==
  IF r.status # "ok" THEN {"CallCompletes"}
  ELSE IF Len(r.re) # Len(r.x) \/ Len(r.valid) # Len(r.x) \/ Len(r.im) # Len(r.x) THEN {"OneResultPerPoint"}
  ELSE Violated({
    <<"NodeExact",   \A k \in Pts(r) : OnNode(r, k) => PointOK(r, k, r.zre, r.re)>>,
    <<"ExactInCell", \A k \in Pts(r) : (~OnNode(r, k) /\ Inside(r.nx, r.ny, r.x[k], r.y[k])) => PointOK(r, k, r.zre, r.re)>>,
    <<"OutsideInvalid", \A k \in Pts(r) : ~Inside(r.nx, r.ny, r.x[k], r.y[k]) => PointOK(r, k, r.zre, r.re)>>,
    <<"ImaginaryPart", \A k \in Pts(r) : PointOK(r, k, r.zim, r.im)>>,
    <<"FillOutside", \A k \in Pts(r) : (r.checkfill /\ ~Inside(r.nx, r.ny, r.x[k], r.y[k])) => r.fillok[k]>>,
    <<"InputsUnchanged", r.unchanged>> })
TraceInit == l = 1
TraceNext == l <= Len(Trace) /\ Report(l, Failing(Trace[l])) /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_l
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
