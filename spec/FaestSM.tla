------------------------------- MODULE FaestSM -------------------------------
(***************************************************************************)
(* Signing and verification as state machines: one action per stage of the *)
(* algorithm.  `job' is the call in progress (parameter record and         *)
(* arguments), `pc' the next stage, `x' what has been computed so far.     *)
(* kx is a value the oracle for the last challenge is programmed with (the *)
(* oracle's answer is xored with it; zeros: the plain oracle): a harness    *)
(* uses it to choose the challenge that is opened.                          *)
(***************************************************************************)
EXTENDS Faest

VARIABLES job, pc, x
smvars == <<job, pc, x>>

Idle == pc = "idle"
SMInit == job = <<>> /\ pc = "idle" /\ x = <<>>

BeginSign(P, sk, msg, rho, kx) ==
  /\ Idle
  /\ LET key == SkKey(P, sk)  inp == OwfInOf(P, sk) IN
     IF ~Valid(P, key, inp)
     THEN /\ pc' = "refused" /\ job' = [P |-> P] /\ x' = <<>>
     ELSE /\ pc' = "commit"
          /\ job' = [P |-> P, kx |-> kx, key |-> key, inp |-> inp, outp |-> TLCEval(Owf(P, key, inp))]
          /\ x' = LET mu == Mu(P, inp, job'.outp, msg)
                      r == RootIv(P, key, mu, rho)
                  IN [mu |-> mu, rootkey |-> SubSeq(r, 1, P.lb), iv |-> SubSeq(r, P.lb + 1, P.lb + P.ivb)]
Put(r) == x' = r @@ x
SignCommit ==
  /\ pc = "commit" /\ pc' = "ch1" /\ UNCHANGED job
  /\ Put([vole |-> VoleCommit(job.P, x.rootkey, x.iv)])
SignCh1 ==
  /\ pc = "ch1" /\ pc' = "ch2" /\ UNCHANGED job
  /\ LET P == job.P
         ch1 == Chall1(P, x.mu, x.vole.hcom, Cat(x.vole.c), x.iv)
         w == Wit(P, job.key, job.inp)
     IN Put([ch1 |-> ch1, ut |-> VoleHash(P, ch1, x.vole.u), hv |-> HV(P, ch1, x.vole.v),
             w |-> w, d |-> XorB(w, SubSeq(x.vole.u, 1, P.l \div 8))])
SignCh2 ==
  /\ pc = "ch2" /\ pc' = "open" /\ UNCHANGED job
  /\ LET P == job.P
         ch2 == Chall2(P, x.ch1, x.ut, x.hv, x.d)
         pf == Prove(P, x.w, x.vole.u, x.vole.v, job.inp, job.outp, ch2)
     IN Put([ch2 |-> ch2, a |-> pf.a, b |-> pf.b, ch3 |-> XorB(Chall3(P, ch2, pf.a, pf.b), job.kx)])
SignOpen ==
  /\ pc = "open" /\ pc' = "signed" /\ UNCHANGED job
  /\ Put([sig |-> Cat(x.vole.c) \o x.ut \o x.d \o x.a \o Opening(job.P, x.vole.vc, x.ch3) \o x.ch3 \o x.iv])
SignStep == SignCommit \/ SignCh1 \/ SignCh2 \/ SignOpen

BeginVerify(P, pk, msg, sig, kx) ==
  /\ Idle
  /\ IF Len(sig) # P.sig THEN pc' = "rejected" /\ job' = [P |-> P] /\ x' = <<>>
     ELSE /\ pc' = "vrec"
          /\ job' = [P |-> P, kx |-> kx, inp |-> OwfInOf(P, pk), outp |-> PkOut(P, pk), sig |-> sig]
          /\ x' = [mu |-> Mu(P, job'.inp, job'.outp, msg), iv |-> At(sig, OffIv(P), P.ivb), ch3 |-> At(sig, OffCh3(P), P.lb),
                   d |-> At(sig, OffD(P), P.l \div 8), a |-> At(sig, OffA(P), P.lb), ut |-> At(sig, OffU(P), P.lb + P.ub)]
VerifyRec ==
  /\ pc = "vrec" /\ pc' = "vch1" /\ UNCHANGED job
  /\ LET P == job.P IN
     Put([rec |-> VoleReconstruct(P, x.iv, x.ch3, [i \in 1..P.tau |-> SigPdec(P, job.sig, i)],
                                  [i \in 1..P.tau |-> At(job.sig, OffCom(P, i), 2 * P.lb)])])
VerifyCh1 ==
  /\ pc = "vch1" /\ pc' = "vch2" /\ UNCHANGED job
  /\ LET P == job.P
         ch1 == Chall1(P, x.mu, x.rec.hcom, At(job.sig, 0, (P.tau - 1) * P.hb), x.iv)
         q == Correct(P, job.sig, x.ch3, x.rec.q)
     IN Put([ch1 |-> ch1, q |-> q, hv |-> HVq(P, ch1, q, x.ut, x.ch3)])
VerifyCh2 ==
  /\ pc = "vch2" /\ UNCHANGED job
  /\ LET P == job.P
         ch2 == Chall2(P, x.ch1, x.ut, x.hv, x.d)
         b == VerifyB(P, x.d, x.q, ch2, x.ch3, x.a, job.inp, job.outp)
         ch3 == XorB(Chall3(P, ch2, x.a, b), job.kx)
     IN Put([ch2 |-> ch2, b |-> b]) /\ pc' = IF ch3 = x.ch3 THEN "accepted" ELSE "rejected"
VerifyStep == VerifyRec \/ VerifyCh1 \/ VerifyCh2
Finish == pc' = "idle" /\ job' = <<>> /\ x' = <<>>
=============================================================================
