------------------------------- MODULE DatumMC -------------------------------
(* A session that asks for ellipsoids one after the other: the object returned   *)
(* depends only on what was asked for.                                           *)
EXTENDS Datum, Sequences, TLC, Json, IOUtils, CSV
CONSTANT MaxLen
VARIABLE hist
Units == {"MKS", "CGS"}
Case == {"upper", "lower"}
Req == [name : Names, units : Units, case : Case]
Init == hist = <<>>
Next == Len(hist) < MaxLen /\ \E r \in Req : hist' = Append(hist, r)
Spec == Init /\ [][Next]_hist
(* the table itself is consistent: b = a (1 - f), and sensible *)
Sane == \A n \in Names : /\ Published[n].rf \in 290000000 .. 300000000
                         /\ Published[n].a \in 63770000 .. 63790000
(* a - b = a f : a in m over 1/f in thousandths, against the published b in dm *)
AxisTable == \A n \in DOMAIN Derived :
     LET d == Published[n].a - Derived[n].b IN ((Published[n].a \div 10) * 100) \div (Published[n].rf \div 10000) \in ((d \div 10) - 80) .. ((d \div 10) + 80)
Emit == (Len(hist) = MaxLen) => CSVWrite("%1$s", <<ToJson([hist |-> hist])>>, IOEnv.OUT)
=============================================================================
