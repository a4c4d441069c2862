-------------------------------- MODULE Login ---------------------------------
(* Logging in to a data centre.  Credentials come from a file of the user, from    *)
(* the arguments, from the environment, or are asked for; each source is named by   *)
(* a token, the k-th answer of the user by k.  The centre answers attempt k by      *)
(* v[k]: "yes", "no", "down".  What is sent is sent in the open, so it matters      *)
(* which credentials are used, and how often.                                       *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Bug(design, name, right, wrong) == IF design = name THEN wrong ELSE right
(* c.netrc: "entry" for this centre, "other" centre only, "broken" file, "none"; an argument is absent, None or a value; *)
(* c.n attempts are allowed *)
Value(arg, env, name, design) ==
  Bug(design, "environment needs absence", IF arg = "value" THEN "A" ELSE IF env THEN "E" ELSE "",
      IF arg = "value" THEN "A" ELSE IF env /\ arg = "absent" THEN "E" ELSE "")
Found(c, design) ==
  LET a == <<Value(c.argu, c.envu, "u", design), Value(c.argp, c.envp, "p", design)>> IN
  CASE design = "file last" /\ a[1] # "" /\ a[2] # "" -> a
    [] design = "any entry" /\ c.netrc = "other" -> <<"N", "N">>
    [] OTHER -> IF c.netrc = "entry" THEN <<"N", "N">> ELSE a
(* state: creds (the pair at hand), asks (questions so far), sent (pairs so far), status *)
Start(c, design) == [creds |-> Found(c, design), asks |-> <<>>, sent |-> <<>>, status |-> "running", round |-> 1]
Missing(s) == (IF s.creds[1] = "" THEN <<"user">> ELSE <<>>) \o (IF s.creds[2] = "" THEN <<"password">> ELSE <<>>)
(* the answers of round k *)
Answer(s, k) == [s EXCEPT !.asks = @ \o [i \in 1 .. Len(Missing(s)) |-> <<Missing(s)[i], k>>],
                          !.creds = <<IF @[1] = "" THEN ToString(k) ELSE @[1], IF @[2] = "" THEN ToString(k) ELSE @[2]>>]
Send(s, v) == LET t == [s EXCEPT !.sent = Append(@, s.creds)] IN IF v[Len(t.sent)] = "yes" THEN [t EXCEPT !.status = "in"] ELSE t
(* after a refusal: over, or again with nothing at hand *)
After(s, c, design) ==
  IF Len(s.sent) >= Bug(design, "once more", c.n, c.n + 1) THEN [s EXCEPT !.status = "refused", !.asks = Bug(design, "asks for nothing", @, @ \o <<<<"user", 9>>, <<"password", 9>>>>)]
  ELSE IF design = "no prompt" /\ (s.asks = <<>> \/ s.asks[Len(s.asks)][1] # "password") THEN [s EXCEPT !.status = "crashed"]
  ELSE [s EXCEPT !.creds = Bug(design, "keeps the password", <<"", "">>, <<"", @[2]>>), !.round = @ + 1]
RECURSIVE Run(_, _, _)
Run(s, c, v) ==
  IF s.status # "running" THEN s
  ELSE LET t == Send(Answer(s, s.round), v) IN IF t.status = "in" THEN t ELSE Run(After(t, c, "sound"), c, v)
(* the law of a login *)
Law(c, v) == Run(Start(c, "sound"), c, v)
=============================================================================
