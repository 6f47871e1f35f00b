------------------------------ MODULE TraceLeak -----------------------------
(* Recorded executions against Leak. *)
EXTENDS Leak, Json, IOUtils
Trace == TLCEval(ndJsonDeserialize(IOEnv.TRACE))
VARIABLE l
e == Trace[l]
P == PS(e.set)
Pub == <<e.cfg>> \o
  (CASE e.op = "owf" -> EvalPub(P, e.set, Hex(e.key), Hex(e.inp))
     [] e.op = "validate" -> ValidatePub(P, e.set, Hex(e.pk), Hex(e.sk))
     [] e.op = "sign" -> SignPub(P, e.set, Hex(e.sk), e.mlen, e.rlen, e.pinned)
     [] e.op = "keygen" -> KeygenPub(P, e.set, Hex(e.stream))
     [] e.op = "part" -> <<"part", e.name, e.pub>>)
Results == CASE e.op = "owf" -> (e.rc = 1) = Valid(P, Hex(e.key), Hex(e.inp))
             [] e.op = "validate" -> e.rc = Verdict(P, Hex(e.pk), Hex(e.sk))
             [] e.op \in {"sign", "keygen"} -> e.rc = 0
             [] OTHER -> TRUE
TInit == LeakInit /\ l = 1
TNext == l <= Len(Trace) /\ l' = l + 1 /\ Results /\ \E p \in {TLCEval(Pub)} : Observe(p, e.obs)
TSpec == TInit /\ [][TNext]_<<leak, l>>
TView == l
Furthest == TLCSet(1, l)
Accepted == PrintT(<<"CONSUMED", TLCGet(1) - 1, Len(Trace)>>) /\ TLCGet(1) = Len(Trace) + 1
=============================================================================
