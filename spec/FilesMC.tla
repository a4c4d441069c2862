------------------------------- MODULE FilesMC -------------------------------
EXTENDS Files, TLC, Json, IOUtils, CSV
CONSTANTS Design, EmitOn, MaxLen
VARIABLES c, own, disk, hist, good, fs
vars == <<c, own, disk, hist, good, fs>>
Cells == { <<"zero", "one", "two">>, <<Masked, "one", "zero">>, <<"one", Masked, Masked>>, <<Masked, Masked, Masked>> }
Fills == {"", "neg", "zero", "nan"}
Kinds == {"drift", "grid", "time series"}
(* a mask needs a fill value that no cell has *)
Sensible(x) == /\ ((\E k \in 1 .. 3 : x.cells[k] = Masked) => x.fill # "")
               /\ (x.fill # "" => \A k \in 1 .. 3 : x.cells[k] # x.fill)
Contents == {x \in [kind : Kinds, cells : Cells, fill : Fills, scalar : {0, 7}] : Sensible(x)}
AllNames == {"a.nc", "A.NC", "A.nc", "a.nc.bak", "A.NC.bak", "aXnc"}
Init == /\ hist = <<>> /\ good = TRUE /\ disk = <<>>
        /\ \/ c \in Contents /\ fs = {}
           \/ c = [kind |-> "drift", cells |-> <<"one", "one", "two">>, fill |-> "", scalar |-> 0] /\ fs \in (SUBSET AllNames \ {{}})
        /\ own = c
Write == /\ fs = {} /\ \E f \in {x \in Formats : Holds(x, c.kind)} :
            /\ disk' = Append(disk, FileOf(c, f, Design)) /\ hist' = Append(hist, [f |-> "write", fmt |-> f, i |-> 0])
            /\ c' = After(c, f, Design) /\ UNCHANGED <<good, own, fs>>
Read == /\ fs = {} /\ \E i \in 1 .. Len(disk) :
            /\ hist' = Append(hist, [f |-> "read", fmt |-> disk[i].fmt, i |-> i])
            /\ good' = (good /\ Reading(disk[i]) = Expect(own, disk[i].fmt)) /\ UNCHANGED <<c, own, disk, fs>>
(* what was read is written in another format *)
Again == /\ fs = {} /\ hist # <<>> /\ hist[Len(hist)].f = "read" /\ Attributes(hist[Len(hist)].fmt) /\ hist[Len(hist)].fmt # "parquet"
         /\ \E f \in {x \in Formats : Holds(x, c.kind)} :
            LET d == disk[hist[Len(hist)].i] IN
            /\ disk' = Append(disk, FileOf([c EXCEPT !.cells = Reading(d).cells, !.scalar = d.scalar, !.fill = d.fill], f, Design))
            /\ hist' = Append(hist, [f |-> "again", fmt |-> f, i |-> 0]) /\ UNCHANGED <<c, own, good, fs>>
Find == /\ fs # {} /\ hist = <<>> /\ \E n \in AllNames :
            /\ hist' = <<[f |-> "find", fmt |-> n, i |-> 0]>>
            /\ good' = (good /\ \A m \in Found(fs, n, Design) : Lower(m) = Lower(n)) /\ UNCHANGED <<c, own, disk, fs>>
Next == Len(hist) < MaxLen /\ (Write \/ Read \/ Again \/ Find)
Spec == Init /\ [][Next]_vars
ReadsWhatWasWritten == good
CallerKeeps == c = own
Emit == (EmitOn /\ hist # <<>> /\ hist[Len(hist)].f \in {"read", "find"}) => CSVWrite("%1$s", <<ToJson([c |-> own, hist |-> hist, fs |-> fs])>>, IOEnv.OUT)
=============================================================================
