-------------------------------- MODULE Fetch ---------------------------------
(* Copies of remote files.  A content is <<version, blocks>>; complete contents    *)
(* have Blocks blocks, <<0, 0>> is no file.  A fetch transfers blocks into a        *)
(* buffer, asks for the time, and replaces the local copy unless the caller's      *)
(* checksum is that of the buffer.  It can fail before, during and after any of    *)
(* these steps; the process can end while it writes.                               *)
EXTENDS Integers, Sequences, FiniteSets
Bug(design, name, right, wrong) == IF design = name THEN wrong ELSE right
None == <<0, 0>>
Protocols == {"http", "ftp", "cddis"}
(* which faults a protocol knows: before the transfer, within it, after it, at the writing *)
Faults == {"refused", "missing", "cut", "stamp", "full", "killed"}
Knows(p) == CASE p = "ftp" -> Faults [] OTHER -> Faults \ {"stamp"}
Stamps(p) == p = "ftp"
(* the checksum of the caller: none, of the local copy, of something else, of the remote file *)
Checksums == {"none", "local", "other", "remote"}
Sum(h, local, remote) == CASE h = "local" -> local [] h = "remote" -> remote [] OTHER -> None
-----------------------------------------------------------------------------
(* the law: what one fetch makes of the state; status is "ok" or "error" *)
Writes(s, op) == op.local /\ Sum(op.hash, s.local, s.remote) # s.remote
Failing(s, op) == op.fault # "" /\ (op.fault \in {"full", "killed"} => Writes(s, op))
Law(s, op, now) ==
  IF Failing(s, op) THEN [s EXCEPT !.status = "error", !.ret = None]
  ELSE [s EXCEPT !.status = "ok", !.ret = s.remote,
                 !.local = IF Writes(s, op) THEN s.remote ELSE @,
                 !.ltime = IF Writes(s, op) /\ Stamps(op.proto) THEN s.rtime ELSE IF Writes(s, op) THEN now ELSE @]
-----------------------------------------------------------------------------
(* listings: rows <<name, time>>, those that match, by name if asked *)
RECURSIVE Keep(_, _)
Keep(rows, match) == IF rows = <<>> THEN <<>> ELSE (IF match[1] THEN <<rows[1]>> ELSE <<>>) \o Keep(Tail(rows), Tail(match))
Sorted(rank) == \A k \in 1 .. Len(rank) - 1 : rank[k] <= rank[k + 1]
=============================================================================
