------------------------------- MODULE NamesMC --------------------------------
(* Enumerates every spelling x template x letter case, checks that the templates *)
(* are unambiguous under Recognise, and emits the label with its meaning.        *)
EXTENDS Names, TLC, Json, IOUtils, CSV
PrimedNames == {<<"q", "1">>, <<"o", "1">>, <<"m", "1">>, <<"k", "1">>, <<"j", "1">>, <<"n", "2">>, <<"m", "2">>, <<"l", "2">>, <<"m", "3">>, <<"s", "3">>}
VARIABLES name, kind, tpl, case, pc
vars == <<name, kind, tpl, case, pc>>
Cases == {"lower", "upper", "title", "mixed"}
Words == {<<n, "canonical">> : n \in Range(Canonical)}
   \cup {<<n \o <<"'">>, "primed">> : n \in {m \in Range(Canonical) : m \in PrimedNames}}
   \cup {<<a, "abbrev">> : a \in AbbrevWords}
Init == /\ \E w \in Words : name = w[1] /\ kind = w[2]
        /\ tpl \in 1 .. Len(Templates) /\ case \in Cases /\ pc = "start"
Label == Templates[tpl][1] \o name \o Templates[tpl][2]
Bare == IF kind = "primed" THEN SubSeq(name, 1, Len(name) - 1) ELSE name
Meaning == IF kind = "abbrev" THEN Expand(Bare) ELSE name
(* contexts in which an abbreviation coincides with a canonical name of the     *)
(* template itself (o1 in tpxo10, t2 in eot20) are ambiguous and not produced   *)
Unambiguous == /\ (kind = "abbrev" => Scan(Range(Canonical), Low(Templates[tpl][1]), 1) = <<>> /\ Scan(Range(Canonical), Low(Templates[tpl][2]), 1) = <<>>)
               /\ Recognise(Label) = (IF kind = "primed" THEN Bare ELSE Meaning)
Go == pc = "start" /\ pc' = "done" /\ UNCHANGED <<name, kind, tpl, case>>
      /\ (Unambiguous => CSVWrite("%1$s", <<ToJson([name |-> name, kind |-> kind, pre |-> Templates[tpl][1],
              post |-> Templates[tpl][2], case |-> case, meaning |-> Meaning])>>, IOEnv.OUT))
Next == Go
Spec == Init /\ [][Next]_vars
CanonicalAlwaysClear == kind # "abbrev" => Unambiguous
NoCollision == \A i, j \in 1 .. Len(Canonical) : i # j => Canonical[i] # Canonical[j]
ExpansionsCanonical == \A i \in 1 .. Len(Abbrev) : Abbrev[i][2] \in Range(Canonical)
JunkClear == \A i \in 1 .. Len(Junk) : Recognise(Junk[i]) = <<>>
=============================================================================
