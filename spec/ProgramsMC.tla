------------------------------ MODULE ProgramsMC ------------------------------
(* The programs as they work: instant after instant over a map, station after      *)
(* station over a series, all at once along a track; the file at the end.          *)
EXTENDS Programs, IOUtils, CSV, Json, TLC
CONSTANTS Design, EmitOn, MaxLen, Progs, Fmts
VARIABLES fs, hist, run, out
vars == <<fs, hist, run, out>>
Fill == <<"fill">>
Dry == {2}
Val(v, p, t) == IF v \in {"tide", "u", "v"} /\ p \in Dry THEN Fill ELSE <<v, p, t>>
At(x, e) == x + e
In(x, s) == x - s
Names == {"in", "out"}
(* files of the user: two places (the second is dry) and one or two instants *)
Inputs == {[fmt |-> f, kind |-> k, saystime |-> st, epoch |-> e, sayssystem |-> ss, system |-> s, times |-> t, places |-> <<1 + s, 2 + s>>, cells |-> <<>>] :
  f \in Fmts, k \in Kinds, st \in BOOLEAN, e \in {0, 3}, ss \in BOOLEAN, s \in {0, 5}, t \in {<<>>, <<1>>, <<1, 2>>}}
Good(f) == /\ Holds(f.fmt, f.kind)
           /\ (f.saystime => SaysTime(f.fmt)) /\ (f.sayssystem => SaysSystem(f.fmt)) /\ (f.fmt \in {"GTiff", "cog"} => f.sayssystem)
           /\ (f.kind = "drift" => Len(f.times) = 2) /\ (HasTime(f.fmt) <=> f.times # <<>>)
(* the user knows what the file does not say, and may leave the rest at its default *)
Ops(x) == LET f == fs[x] IN
  {[prog |-> p, from |-> x, to |-> y, fmt |-> IF f.fmt = "none" THEN "csv" ELSE f.fmt, kind |-> IF f.fmt = "none" THEN "drift" ELSE f.kind, epoch |-> e, system |-> s, delta |-> d] :
   p \in Progs, y \in {"out", "out2"} \ {x}, e \in {0, 3}, s \in {0, 5}, d \in IF f.fmt = "none" \/ HasTime(f.fmt) THEN {<<>>} ELSE {<<2>>, <<2, 4>>}}
Idle == [f |-> "no"]
Init == /\ fs \in {[n \in {"in", "out", "out2"} |-> IF n = "in" THEN f ELSE NoFile] : f \in {g \in Inputs : Good(g)}}
        /\ hist = <<>> /\ run = Idle /\ out = [law |-> NoFile, got |-> NoFile, kept |-> TRUE]
(* maps of coordinates, as a run writes them for a grid, are no axes *)
Usable(f, op) == /\ (op.from = "out" /\ f.fmt \in {"netCDF4", "HDF5"} => f.kind # "grid")
                 /\ f.fmt # "none" => /\ (~f.saystime => op.epoch = f.epoch)
                                      /\ (~f.sayssystem => op.system = f.system)
Begin == /\ run = Idle /\ Len(hist) < MaxLen
         /\ \E x \in Names : \E op \in Ops(x) :
              LET f == fs[op.from]
                  can == Runs(f, op) IN
              /\ Usable(f, op)
              /\ hist' = Append(hist, op)
              /\ out' = [law |-> IF can THEN Made(f, op, Places(f, op, In), Instants(f, op, At), Val) ELSE fs[op.to], got |-> fs[op.to], kept |-> TRUE]
              /\ run' = IF ~can THEN [f |-> "end", op |-> op, cells |-> <<>>]
                        ELSE [f |-> "loop", op |-> op, i |-> 1, ps |-> IF Design = "user's system first" THEN [k \in 1 .. Len(f.places) |-> f.places[k] - op.system] ELSE Places(f, op, In),
                              ts |-> IF Design = "user's epoch first" /\ op.delta = <<>> THEN [k \in 1 .. Len(f.times) |-> f.times[k] + op.epoch] ELSE Instants(f, op, At), cells |-> <<>>]
              /\ UNCHANGED fs
(* one step of the loop; a drift is done in one *)
Cell(r, v, p, t) == LET x == Val(v, p, t) IN IF x = Fill /\ Design = "mask lost" THEN <<v, p, 0>> ELSE x
Loop == /\ run.f = "loop"
        /\ LET r == run
               vs == Vars(r.op.prog)
               np == Len(r.ps)
               nt == Len(r.ts)
               kind == r.op.kind
               old == IF r.cells = <<>> THEN [v \in 1 .. Len(vs) |-> [k \in 1 .. Count(kind, np, nt) |-> <<0>>]] ELSE r.cells
               at(k) == IF Design = "first instant" /\ kind = "grid" THEN r.ts[1] ELSE r.ts[IF kind = "grid" THEN r.i ELSE k]
               new == CASE kind = "drift" -> [v \in 1 .. Len(vs) |-> [k \in 1 .. np |-> Cell(r, vs[v], r.ps[k], r.ts[k])]]
                        [] kind = "grid" -> [v \in 1 .. Len(vs) |-> [k \in 1 .. np * nt |->
                              IF Design = "bands first" THEN (IF (k - 1) \div np + 1 = r.i THEN Cell(r, vs[v], r.ps[((k - 1) % np) + 1], at(0)) ELSE old[v][k])
                              ELSE IF ((k - 1) % nt) + 1 = r.i THEN Cell(r, vs[v], r.ps[(k - 1) \div nt + 1], at(0)) ELSE old[v][k]]]
                        [] OTHER -> [v \in 1 .. Len(vs) |-> [k \in 1 .. np * nt |-> IF (k - 1) \div nt + 1 = r.i THEN Cell(r, vs[v], r.ps[r.i], r.ts[((k - 1) % nt) + 1]) ELSE old[v][k]]]
               last == kind = "drift" \/ r.i = (IF kind = "grid" THEN nt ELSE np)
               same == IF Design = "one component" /\ r.op.prog = "current" THEN <<new[1], new[1]>> ELSE new IN
           run' = IF last THEN [f |-> "end", op |-> r.op, cells |-> same, ps |-> r.ps, ts |-> r.ts] ELSE [r EXCEPT !.cells = new, !.i = r.i + 1]
        /\ UNCHANGED <<fs, hist, out>>
End == /\ run.f = "end"
       /\ IF run.cells = <<>> THEN UNCHANGED <<fs, out>>
          ELSE LET f == fs[run.op.from]
                   made == [fmt |-> f.fmt, kind |-> f.kind, saystime |-> SaysTime(f.fmt), epoch |-> 0, sayssystem |-> FALSE, system |-> 0, times |-> run.ts, places |-> run.ps, cells |-> run.cells]
                   fs1 == [fs EXCEPT ![run.op.to] = made] IN
               /\ fs' = IF Design = "reads and writes back" /\ run.op.delta # <<>> THEN [fs1 EXCEPT ![run.op.from].times = run.op.delta] ELSE fs1
               /\ out' = [out EXCEPT !.got = made, !.kept = (fs'[run.op.from] = f)]
       /\ run' = Idle /\ UNCHANGED hist
Next == Begin \/ Loop \/ End
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Lawful == run = Idle /\ hist # <<>> => out.got = out.law /\ out.kept
Ends == []<>(run = Idle)
Emit == EmitOn /\ run = Idle /\ Len(hist) = MaxLen =>
  CSVWrite("%1$s", <<ToJson([start |-> [fmt |-> fs["in"].fmt, kind |-> fs["in"].kind, saystime |-> fs["in"].saystime, epoch |-> fs["in"].epoch, sayssystem |-> fs["in"].sayssystem, system |-> fs["in"].system], hist |-> hist])>>, IOEnv.OUT)
=============================================================================
