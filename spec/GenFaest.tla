------------------------------ MODULE GenFaest ------------------------------
(***************************************************************************)
(* Produces signatures by running the signing state machine: one per job   *)
(* (set, sk, msg, rho, kx) of the input file.  With kx # 0 the opened      *)
(* challenge differs from the oracle's answer by kx: a forgery that is     *)
(* right in everything else, which verification has to refuse.             *)
(***************************************************************************)
EXTENDS FaestSM, Json, IOUtils
Jobs == TLCEval(ndJsonDeserialize(IOEnv.TRACE))
VARIABLES gi, gout
e == Jobs[gi]
GInit == SMInit /\ gi = 1 /\ gout = <<>>
GNext ==
  /\ gi <= Len(Jobs)
  /\ \/ BeginSign(PS(e.set), Hex(e.sk), Hex(e.msg), Hex(e.rho), Hex(e.kx)) /\ UNCHANGED <<gi, gout>>
     \/ SignStep /\ UNCHANGED <<gi, gout>>
     \/ pc \in {"signed", "refused"} /\ Finish /\ gi' = gi + 1
        /\ gout' = Append(gout, [i |-> gi, pk |-> IF pc = "signed" THEN job.inp \o job.outp ELSE <<>>, sig |-> IF pc = "signed" THEN x.sig ELSE <<>>])
GSpec == GInit /\ [][GNext]_<<smvars, gi, gout>>
GView == <<gi, pc>>
Furthest == TLCSet(1, gi) /\ (gi > Len(Jobs) => ndJsonSerialize(IOEnv.OUT, gout))
Done == PrintT(<<"CONSUMED", TLCGet(1) - 1, Len(Jobs)>>) /\ TLCGet(1) = Len(Jobs) + 1
=============================================================================
