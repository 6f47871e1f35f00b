------------------------------ MODULE RandDev ------------------------------
(***************************************************************************)
(* What the operating system's random facilities do, and what a request    *)
(* for random bytes may make of it.  State of a request: bytes delivered   *)
(* so far, descriptors open, whether a call failed for good, and whether   *)
(* the last one delivered nothing for lack of readiness.                   *)
(* Facilities: "urandom" (open, ioctl, read, close), "getrandom",          *)
(* "status" (one call that fills the buffer or reports failure), "fill"    *)
(* (one call that always fills the buffer).                                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Fresh == [got |-> 0, fds |-> {}, fatal |-> FALSE, empty |-> FALSE, ok |-> TRUE]
(* one system call c = [call, out, n, fd]: n bytes delivered, or the error out *)
Apply(s, c) ==
  CASE c.call = "open" /\ c.out = "ok" -> [s EXCEPT !.fds = @ \cup {c.fd}, !.ok = @ /\ c.fd \notin s.fds]
    [] c.call = "open" /\ c.out = "eintr" -> s
    [] c.call = "open" /\ c.out = "fail" -> [s EXCEPT !.fatal = TRUE]
    [] c.call = "ioctl" -> [s EXCEPT !.fatal = @ \/ c.out # "ok", !.ok = @ /\ c.fd \in s.fds]
    [] c.call = "read" /\ c.out \in {"eintr", "eagain"} -> [s EXCEPT !.ok = @ /\ c.fd \in s.fds]
    [] c.call = "read" /\ c.out \in {"fail", "eof"} -> [s EXCEPT !.fatal = TRUE, !.ok = @ /\ c.fd \in s.fds]
    [] c.call = "read" /\ c.out = "ok" -> [s EXCEPT !.got = @ + c.n, !.ok = @ /\ c.fd \in s.fds]
    [] c.call = "close" -> [s EXCEPT !.fds = @ \ {c.fd}, !.ok = @ /\ c.fd \in s.fds]
    [] c.call \in {"getrandom", "status", "fill"} /\ c.out = "ok" -> [s EXCEPT !.got = @ + c.n, !.empty = FALSE]
    [] c.call = "getrandom" /\ c.out # "ok" -> [s EXCEPT !.empty = TRUE]
    [] c.call = "status" /\ c.out # "ok" -> [s EXCEPT !.fatal = TRUE]
RECURSIVE After(_, _, _)
After(s, cs, i) == IF i > Len(cs) THEN s ELSE After(Apply(s, cs[i]), cs, i + 1)
(* may the request for len bytes return rc after this?  Interrupted and partial reads of the device are no reason to fail. *)
Filled(s, len) == ~s.fatal /\ ~s.empty /\ s.got >= len
May(fac, s, len, rc) ==
  /\ s.fds = {} /\ s.ok
  /\ rc = 0 <=> Filled(s, len)
  /\ rc # 0 => s.fatal \/ fac = "getrandom"
=============================================================================
