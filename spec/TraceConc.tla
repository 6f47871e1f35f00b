----------------------------- MODULE TraceConc ------------------------------
(* Recorded calls of several threads, and what they touched besides their own memory, against Conc. *)
EXTENDS Conc, Json, IOUtils
Trace == TLCEval(ndJsonDeserialize(IOEnv.TRACE))
VARIABLE l
e == Trace[l]
TAlone == e.op = "alone" /\ Alone(e.job, e.out)
TStart == e.op = "start" /\ Start(e.t, e.job)
TRun == e.op = "run" /\ Run(e.t)
TAccess == e.op = "access" /\ Access(e.t, e.write, e.sync)
TEnd == e.op = "end" /\ Finish(e.t, e.out)
TInit == ConcInit /\ l = 1
TNext == l <= Len(Trace) /\ l' = l + 1 /\ (TAlone \/ TStart \/ TRun \/ TAccess \/ TEnd)
TSpec == TInit /\ [][TNext]_<<concvars, l>>
TView == l
Furthest == TLCSet(1, l)
Accepted == PrintT(<<"CONSUMED", TLCGet(1) - 1, Len(Trace)>>) /\ TLCGet(1) = Len(Trace) + 1
=============================================================================
