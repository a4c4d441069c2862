------------------------------ MODULE HarmonicMC ------------------------------
EXTENDS Harmonic, TLC, Json, IOUtils, CSV
CONSTANT MaxJob
VARIABLES stage, p, u, v, job
vars == <<stage, p, u, v, job>>
Axes == {<<5, 3>>, <<5, 0>>, <<5, -2>>, <<4, -4>>, <<3, 3>>, <<40, 1>>}
Solvers == {"lstsq", "gelsd", "gelsy", "gelss", "bvls"}
Convs == {"OTIS", "FES", "GOT"}
Gaps == {"none", "masked", "nan", "both"}
Orders == {"given", "reversed", "shuffled"}
Times == {"sorted", "shuffled"}
NoJob == [solver |-> "", conv |-> "", gap |-> "", order |-> "", times |-> "", n |-> 0]
Init == /\ stage = "params" /\ u = <<0, 0>> /\ v = <<0, 0>> /\ job = NoJob
        /\ p \in {[maj |-> a[1], min |-> a[2], incl |-> 15 * i, phase |-> 15 * f] : a \in Axes, i \in -2 .. 23, f \in -2 .. 23}
Synth == stage = "params" /\ stage' = "const" /\ u' = UOf(p) /\ v' = VOf(p) /\ UNCHANGED <<p, job>>
(* the analysis of a series synthesised from constituents is one job *)
Analyse == /\ stage = "params" /\ p.maj = 5 /\ p.min = 3 /\ p.incl = 0 /\ p.phase = 0
           /\ \E s \in Solvers, c \in Convs, g \in Gaps, o \in Orders, t \in Times, n \in 1 .. MaxJob :
                job' = [solver |-> s, conv |-> c, gap |-> g, order |-> o, times |-> t, n |-> n]
           /\ stage' = "job" /\ UNCHANGED <<p, u, v>>
Next == Synth \/ Analyse
Spec == Init /\ [][Next]_vars
(* canonical parameters describe the same constituents *)
CanonSame == stage = "const" => u = UOf(Canon(p)) /\ v = VOf(Canon(p))
CanonRange == LET c == Canon(p) IN c.incl \in 0 .. 179 /\ c.phase \in 0 .. 359
(* energy and swept area: |u|^2+|v|^2 = maj^2+min^2, area = maj*min (1e-3 tables) *)
Energy == stage = "const" =>
   LET e == (u[1] \div 10000) * (u[1] \div 10000) + (u[2] \div 10000) * (u[2] \div 10000) + (v[1] \div 10000) * (v[1] \div 10000) + (v[2] \div 10000) * (v[2] \div 10000)
       w == (p.maj * p.maj + p.min * p.min) * 10000 IN e - w <= (w \div 20) + 2000 /\ w - e <= (w \div 20) + 2000
Rotation == stage = "const" =>
   LET a == ((u[2] \div 10000) * (v[1] \div 10000)) - ((u[1] \div 10000) * (v[2] \div 10000))
       w == p.maj * p.min * 10000 IN a - w <= p.maj * 800 + 2000 /\ w - a <= p.maj * 800 + 2000
Emit == (stage # "params") => CSVWrite("%1$s", <<ToJson(IF stage = "job" THEN [job |-> job, kind |-> "job"]
                       ELSE [kind |-> "ell", p |-> p, u |-> u, v |-> v])>>, IOEnv.OUT)
=============================================================================
