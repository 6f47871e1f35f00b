----------------------------- MODULE TraceDrbg -----------------------------
(* Recorded calls of the known-answer generator's random source against Drbg.  The state is the specification's own. *)
EXTENDS Drbg, Json, IOUtils
Trace == TLCEval(ndJsonDeserialize(IOEnv.TRACE))
VARIABLES l, s
e == Trace[l]
Clean == "dirty" \notin DOMAIN e
InitCall == e.op = "init" /\ \E n \in {Instantiate(Hex(e.entropy), Hex(e.pers))} : s' = n
RandomCall ==
  e.op = "random" /\ \E g \in {Generate(s, e.n)} : Hex(e.out) = g.out /\ s' = g.next /\ e.rc = 0
Init == l = 1 /\ s = [key |-> Zeros(32), v |-> Zeros(16)]
Next == l <= Len(Trace) /\ Clean /\ (InitCall \/ RandomCall) /\ l' = l + 1
TSpec == Init /\ [][Next]_<<l, s>>
TView == l
Furthest == TLCSet(1, l)
Accepted == PrintT(<<"CONSUMED", TLCGet(1) - 1, Len(Trace)>>) /\ TLCGet(1) = Len(Trace) + 1
=============================================================================
