----------------------------- MODULE HarmonicTrace -----------------------------
EXTENDS Harmonic, TraceLib
VARIABLE l
UD == 1000000
Circular(p) == p.maj = p.min \/ p.maj = -p.min
(* axes observed in 1e-6, angles in 1e-6 degree *)
ParamOK(p, r) ==
  LET c == Canon(p) IN
  /\ Near(r.maj, p.maj * 1000000, 2) /\ Near(r.min, p.min * 1000000, 2)
  (* a circle only fixes the difference (anticlockwise) or sum of the two angles; a *)
  (* line at the seam may be described from either end                              *)
  /\ IF p.maj = p.min THEN NearCirc(r.incl - r.phase, (c.incl - c.phase) * UD, 360 * UD, 5)
     ELSE IF p.maj = -p.min THEN NearCirc(r.incl + r.phase, (c.incl + c.phase) * UD, 360 * UD, 5)
     ELSE \/ NearCirc(r.incl, c.incl * UD, 360 * UD, 5) /\ NearCirc(r.phase, c.phase * UD, 360 * UD, 5)
          \/ NearCirc(r.incl, (c.incl + 180) * UD, 360 * UD, 5) /\ NearCirc(r.phase, (c.phase + 180) * UD, 360 * UD, 5)
Clauses(r) ==
  CASE r.kind = "ellipse" -> Violated({
      <<"Parameters", ParamOK(r.p, r)>>,
      <<"MajorNotSmaller", r.majge>>, <<"InclinationRange", r.inclok>>, <<"PhaseRange", r.phaseok>>,
      <<"InverseIsHodograph", LET u == UOf(r.p) v == VOf(r.p) t == 3000 * r.p.maj IN
            Near(r.iu[1], u[1], t) /\ Near(r.iu[2], u[2], t) /\ Near(r.iv[1], v[1], t) /\ Near(r.iv[2], v[2], t)>>,
      <<"ConvertsBack", \A k \in 1 .. 4 : Near(r.res[k], 0, 5)>>,
      <<"Alone", r.alone>>, <<"InputsUnchanged", r.kept>> })
    [] r.kind = "mask" -> Violated({ <<"MaskKept", r.mask = r.want>>, <<"ConvertsBack", r.ok>> })
    [] r.kind = "solve" -> Violated({
      <<"OnePerConstituent", Len(r.amp) = Len(r.wamp) /\ Len(r.ph) = Len(r.wph)>>,
      <<"Amplitudes", \A k \in 1 .. Len(r.wamp) : Near(r.amp[k], r.wamp[k], 5)>>,      \* 1e-6 m
      <<"Phases", \A k \in 1 .. Len(r.wamp) : r.wamp[k] > 1000 => NearCirc(r.ph[k], r.wph[k], 360 * UD, 400)>>,
      <<"PhaseRange", \A k \in 1 .. Len(r.ph) : r.ph[k] >= 0 /\ r.ph[k] <= 360 * UD>>,
      <<"InputsUnchanged", r.kept>> })
    [] r.kind = "refuse" -> Violated({ <<"TooFewRefused", r.err = "ValueError">> })
    [] OTHER -> {"UnknownKind"}
Failing(r) == IF r.status # "ok" THEN {"CallCompletes"} ELSE Clauses(r)
TraceInit == l = 1
TraceNext == l <= Len(Trace) /\ Report(l, Failing(Trace[l])) /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_l
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
