----------------------------- MODULE TraceRand -----------------------------
(***************************************************************************)
(* Recorded requests for random bytes: the system calls made with their    *)
(* results, what was returned, and what the buffer holds.                  *)
(***************************************************************************)
EXTENDS RandDev, Json, IOUtils
Trace == TLCEval(ndJsonDeserialize(IOEnv.TRACE))
VARIABLE l
e == Trace[l]
Ok == /\ e.outside = FALSE                       \* nothing written beside the buffer
      /\ \E s \in {After(Fresh, e.calls, 1)} : May(e.fac, s, e.len, e.rc)
      /\ e.rc = 0 => e.data = e.delivered         \* the buffer holds the bytes delivered, in order
Init == l = 1
Next == l <= Len(Trace) /\ "dirty" \notin DOMAIN e /\ Ok /\ l' = l + 1
TSpec == Init /\ [][Next]_l
TView == l
Furthest == TLCSet(1, l)
Accepted == PrintT(<<"CONSUMED", TLCGet(1) - 1, Len(Trace)>>) /\ TLCGet(1) = Len(Trace) + 1
=============================================================================
