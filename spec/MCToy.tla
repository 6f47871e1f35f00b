------------------------------- MODULE MCToy -------------------------------
(***************************************************************************)
(* Signing and verification of the toy instance, exhaustively over keys    *)
(* and over the value of the last challenge (which kx forces to ch): every *)
(* honest signature verifies, has the fixed size, and is rejected when the *)
(* oracle's answer differs from the opened challenge.                      *)
(***************************************************************************)
EXTENDS Toy, FaestSM
CONSTANTS Taus, KeySet, Chs, Diffs
VARIABLES key0, tau0, phase, want, kx0, sg
vars == <<smvars, key0, tau0, phase, want, kx0, sg>>
TP == ToyP(tau0)
Inp0 == <<99>>
Sk0 == Inp0 \o <<key0>>
Msg0 == <<1, 2, key0>>
Init == SMInit /\ key0 \in KeySet /\ tau0 \in Taus /\ want \in Chs /\ phase = "probe" /\ kx0 = <<0>> /\ sg = <<>>
Keep == UNCHANGED <<key0, tau0, want>>
(* a first pass finds the oracle's answer, the second programs it *)
Probe == phase = "probe" /\ BeginSign(TP, Sk0, Msg0, <<>>, <<0>>) /\ phase' = "probing" /\ UNCHANGED <<kx0, sg>> /\ Keep
Probed == phase = "probing" /\ pc = "signed" /\ Finish /\ phase' = "sign" /\ kx0' = XorB(x.ch3, <<want>>) /\ UNCHANGED sg /\ Keep
Sign == phase = "sign" /\ BeginSign(TP, Sk0, Msg0, <<>>, kx0) /\ phase' = "signing" /\ UNCHANGED <<kx0, sg>> /\ Keep
Signed == phase = "signing" /\ pc = "signed" /\ Finish /\ phase' = "verify" /\ sg' = x.sig /\ UNCHANGED kx0 /\ Keep
Verify == phase = "verify" /\ phase' = "verifying" /\ UNCHANGED <<kx0, sg>> /\ Keep
          /\ BeginVerify(TP, Inp0 \o Owf(TP, <<key0>>, Inp0), Msg0, sg, kx0)
Forge == phase = "verify" /\ phase' = "forging" /\ UNCHANGED sg /\ Keep
         /\ \E df \in Diffs : kx0' = XorB(kx0, <<df>>) /\ BeginVerify(TP, Inp0 \o Owf(TP, <<key0>>, Inp0), Msg0, sg, kx0')
Step == (SignStep \/ VerifyStep) /\ UNCHANGED <<phase, kx0, sg>> /\ Keep
Next == Probe \/ Probed \/ Sign \/ Signed \/ Verify \/ Forge \/ Step
Spec == Init /\ [][Next]_vars
Complete == phase = "verifying" => pc # "rejected"
Refused == phase = "forging" => pc # "accepted"
Forced == pc = "signed" /\ phase = "signing" => x.ch3 = <<want>> /\ Len(x.sig) = TP.sig
Usable == pc = "refused" <=> (phase = "probing" /\ key0 = 99)
(* the equations between prover and verifier *)
Equations == phase = "verifying" /\ pc \in {"accepted", "rejected"} => x.b = XorB(VerifyB(TP, x.d, x.q, x.ch2, x.ch3, x.a, job.inp, job.outp), <<0>>)
MCView == <<key0, tau0, want, phase, pc, kx0>>
=============================================================================
