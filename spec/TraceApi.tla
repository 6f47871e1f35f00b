------------------------------ MODULE TraceApi ------------------------------
(***************************************************************************)
(* Checks recorded histories of public calls against FaestApi.  Values are *)
(* represented by short digests; "zero" is the cleared secret key.         *)
(***************************************************************************)
EXTENDS FaestApi, Json, IOUtils

Trace == TLCEval(ndJsonDeserialize(IOEnv.TRACE))
VARIABLE l
e == Trace[l]
Clean == "dirty" \notin DOMAIN e
ArgError == e.argnull # <<>> \/ e.small
Same == UNCHANGED apivars

TKeygen ==
  /\ e.op = "keygen"
  /\ IF e.null THEN e.rc < 0 /\ e.touched = <<>> /\ Same
     ELSE IF e.fail THEN e.rc # 0 /\ Same
     ELSE e.rc = 0 /\ e.sk # "zero" /\ KeyGen(e.set, e.seed, e.pk, e.sk)
TSign ==
  /\ e.op = "sign"
  /\ IF ArgError THEN e.rc < 0 /\ e.touched = <<>> /\ Same
     ELSE IF e.fail THEN e.rc # 0 /\ Same
     ELSE IF e.sk = "zero" THEN e.rc < 0 /\ Same
     ELSE e.rc = 0 /\ e.lenok /\ e.rhook /\ Sign(e.set, e.sk, e.msg, e.rho, e.sig)
TVerify ==
  /\ e.op = "verify"
  /\ IF e.argnull # <<>> \/ ~e.lenok THEN e.rc < 0 /\ Same
     ELSE Verify(e.set, e.pk, e.msg, e.sig, e.rc = 0)
TCsSign ==
  /\ e.op = "cs_sign"
  /\ IF e.fail THEN e.rc # 0 /\ Same
     ELSE IF e.sk = "zero" THEN e.rc # 0 /\ Same
     ELSE e.rc = 0 /\ e.lenok /\ e.rhook /\ e.head = e.msg /\ Sign(e.set, e.sk, e.msg, e.rho, e.sig)
TCsOpen ==
  /\ e.op = "cs_open" /\ Same
  /\ IF e.short THEN e.rc < 0 /\ ~e.mlenset /\ ~e.mtouched
     ELSE /\ (e.rc = 0) = Signed(e.set, e.pk, e.msg, e.sig)
          /\ IF e.rc = 0 THEN e.lenok /\ e.m = e.msg ELSE ~e.mlenset /\ ~e.mtouched
TValidate ==
  /\ e.op = "validate" /\ Same
  /\ IF e.null THEN e.rc < 0
     ELSE IF e.sk = "zero" THEN e.rc = 1
     ELSE Known(e.set, e.sk) /\ e.rc = IF Pair(e.set, e.pk, e.sk) THEN 0 ELSE 2
TClear == e.op = "clear" /\ e.after = "zero" /\ Same

TInit == ApiInit /\ l = 1
TNext == l <= Len(Trace) /\ Clean /\ l' = l + 1 /\ (TKeygen \/ TSign \/ TVerify \/ TCsSign \/ TCsOpen \/ TValidate \/ TClear)
TSpec == TInit /\ [][TNext]_<<apivars, l>>
TView == l
Furthest == TLCSet(1, l)
Accepted == PrintT(<<"CONSUMED", TLCGet(1) - 1, Len(Trace)>>) /\ TLCGet(1) = Len(Trace) + 1
=============================================================================
