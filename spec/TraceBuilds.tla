---------------------------- MODULE TraceBuilds -----------------------------
(* Calls recorded from several builds of the library against Builds. *)
EXTENDS Builds, Json, IOUtils
Trace == TLCEval(ndJsonDeserialize(IOEnv.TRACE))
VARIABLE l
e == Trace[l]
TBuild == e.op = "build" /\ Declare(e.b, e.choices)
TCall == e.op = "call" /\ Call(e.b, e.c, e.r)
TInit == BuildsInit /\ l = 1
TNext == l <= Len(Trace) /\ l' = l + 1 /\ (TBuild \/ TCall)
TSpec == TInit /\ [][TNext]_<<buildvars, l>>
TView == l
Furthest == TLCSet(1, l)
Accepted == PrintT(<<"CONSUMED", TLCGet(1) - 1, Len(Trace)>>) /\ TLCGet(1) = Len(Trace) + 1
=============================================================================
