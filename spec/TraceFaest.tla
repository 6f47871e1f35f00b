------------------------------ MODULE TraceFaest ------------------------------
(***************************************************************************)
(* Checks a trace of public calls recorded from the implementation against *)
(* FaestSM: every call must be a behaviour of the specification, with each *)
(* stage agreeing with the part of the recorded signature it determines.   *)
(***************************************************************************)
EXTENDS FaestSM, Json, IOUtils

Trace == TLCEval(ndJsonDeserialize(IOEnv.TRACE))
VARIABLE l
vars == <<job, pc, x, l>>
e == Trace[l]
More == l <= Len(Trace)
P0 == PS(e.set)

TInit == SMInit /\ l = 1
Rsig == Hex(e.sig)
Kx == IF "kx" \in DOMAIN e THEN Hex(e.kx) ELSE Zeros(P0.lb)
(* the harness's canaries around buffers and copies of the inputs were intact *)
Clean == "dirty" \notin DOMAIN e
Drawn == Hex(e.stream)
ArgError == e.argnull # <<>> \/ e.cap < P0.sig
Skip == l' = l + 1 /\ Idle /\ UNCHANGED smvars

(* ---- signing.  Argument errors: negative result, nothing written.  Failed random source: an error.  *)
TSignArg == More /\ Clean /\ e.op = "sign" /\ ArgError /\ Skip /\ e.rc < 0 /\ e.touched = <<>>
TSignFail == More /\ Clean /\ e.op \in {"sign", "cs_sign"} /\ e.fail /\ (e.op = "sign" => ~ArgError) /\ Skip /\ e.rc # 0
TSign == /\ More /\ Clean /\ e.op \in {"sign", "signiv"} /\ ~ArgError /\ ~e.fail
         /\ (e.api = "sign" => Len(Hex(e.rho)) = P0.lb)          \* a fresh randomizer of lambda bits, all of it used
         /\ BeginSign(P0, Hex(e.sk), Hex(e.msg), Hex(e.rho), Kx) /\ UNCHANGED l
         /\ (pc' = "commit" => e.rc = 0 /\ e.siglen = P0.sig
                               /\ (e.op = "sign" => Len(Rsig) = P0.sig)
                               /\ x'.iv = IF e.op = "sign" THEN At(Rsig, OffIv(P0), P0.ivb) ELSE Hex(e.iv))
TCsSign == /\ More /\ Clean /\ e.op = "cs_sign" /\ ~e.fail /\ Len(Hex(e.rho)) = P0.lb
           /\ BeginSign(P0, Hex(e.sk), Hex(e.msg), Hex(e.rho), Kx) /\ UNCHANGED l
           /\ (pc' = "commit" => e.rc = 0 /\ e.smlen = Len(Hex(e.msg)) + P0.sig /\ e.head = e.msg
                                 /\ Len(Rsig) = P0.sig /\ x'.iv = At(Rsig, OffIv(P0), P0.ivb))
(* ---- verification *)
TVerifyArg == More /\ Clean /\ e.op = "verify" /\ (e.argnull # <<>> \/ e.slen # P0.sig) /\ Skip /\ e.rc < 0
TVerify == More /\ Clean /\ e.op = "verify" /\ e.argnull = <<>> /\ e.slen = P0.sig
           /\ BeginVerify(P0, Hex(e.pk), Hex(e.msg), Hex(e.sig), Kx) /\ UNCHANGED l
TOpenShort == More /\ Clean /\ e.op = "cs_open" /\ Len(Hex(e.sm)) < P0.sig /\ Skip /\ e.rc < 0 /\ ~e.mlenset /\ ~e.mtouched
TOpen == /\ More /\ Clean /\ e.op = "cs_open"
         /\ \E sm \in {Hex(e.sm)} :
              /\ Len(sm) >= P0.sig
              /\ BeginVerify(P0, Hex(e.pk), SubSeq(sm, 1, Len(sm) - P0.sig), SubSeq(sm, Len(sm) - P0.sig + 1, Len(sm)), Kx) /\ UNCHANGED l
              /\ e.rc = 0 => e.mlen = Len(sm) - P0.sig /\ Hex(e.m) = SubSeq(sm, 1, Len(sm) - P0.sig)
(* stages *)
TStep ==
  /\ More /\ UNCHANGED l /\ e.op # "signiv"
  /\ \/ SignCommit /\ Cat(x'.vole.c) = At(Rsig, 0, (job.P.tau - 1) * job.P.hb)
     \/ SignCh1 /\ x'.ut = At(Rsig, OffU(job.P), job.P.lb + job.P.ub) /\ x'.d = At(Rsig, OffD(job.P), job.P.l \div 8)
     \/ SignCh2 /\ x'.a = At(Rsig, OffA(job.P), job.P.lb) /\ x'.ch3 = At(Rsig, OffCh3(job.P), job.P.lb)
     \/ SignOpen /\ x'.sig = Rsig
     \/ VerifyStep
(* only the first stage is recorded *)
TIv == More /\ e.op = "signiv" /\ pc = "commit" /\ l' = l + 1 /\ Finish
(* end: the recorded result *)
TEnd ==
  /\ More /\ l' = l + 1 /\ Finish
  /\ \/ pc = "signed" /\ e.rc = 0
     \/ pc = "refused" /\ e.rc < 0
     \/ pc = "accepted" /\ e.rc = 0
     \/ pc = "rejected" /\ e.rc # 0 /\ (e.op = "cs_open" => ~e.mlenset /\ ~e.mtouched)
(* ---- key pairs: the random stream is cut into candidates; the first usable one is the key *)
ValidSk(sk) == Valid(P0, SkKey(P0, sk), OwfInOf(P0, sk))
PkOf(sk) == OwfInOf(P0, sk) \o Owf(P0, SkKey(P0, sk), OwfInOf(P0, sk))
TKeygen ==
  /\ More /\ Clean /\ e.op = "keygen" /\ Skip
  /\ IF e.null THEN e.rc < 0 /\ e.touched = <<>>
     ELSE \E st \in {Drawn} :
       LET k == Len(st) \div P0.sk
           cand(i) == SubSeq(st, (i - 1) * P0.sk + 1, i * P0.sk)
       IN IF e.fail THEN e.rc # 0 /\ \A i \in 1..k : ~ValidSk(cand(i))
          ELSE /\ e.rc = 0 /\ k > 0 /\ Len(st) = k * P0.sk
               /\ \A i \in 1..(k - 1) : ~ValidSk(cand(i))
               /\ ValidSk(cand(k)) /\ Hex(e.sk) = cand(k) /\ Hex(e.pk) = PkOf(cand(k))
TValidate ==
  /\ More /\ Clean /\ e.op = "validate" /\ Skip
  /\ IF e.null THEN e.rc < 0
     ELSE \E sk \in {Hex(e.sk)} : e.rc = IF ~ValidSk(sk) THEN 1 ELSE IF Hex(e.pk) = PkOf(sk) THEN 0 ELSE 2
TClear == More /\ Clean /\ e.op = "clear" /\ Skip /\ Hex(e.after) = Zeros(P0.sk) /\ Len(Hex(e.sk)) = P0.sk
TNext == TSign \/ TSignArg \/ TSignFail \/ TCsSign \/ TVerify \/ TVerifyArg \/ TOpen \/ TOpenShort \/ TStep \/ TIv \/ TEnd
         \/ TKeygen \/ TValidate \/ TClear
TSpec == TInit /\ [][TNext]_vars
(* accepted iff the last line was consumed; register 1 holds the furthest line *)
TView == <<l, pc>>
Furthest == TLCSet(1, l)
Accepted == PrintT(<<"CONSUMED", TLCGet(1) - 1, Len(Trace)>>) /\ TLCGet(1) = Len(Trace) + 1
=============================================================================
