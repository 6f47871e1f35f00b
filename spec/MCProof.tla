------------------------------ MODULE MCProof ------------------------------
(***************************************************************************)
(* Soundness of the proof on the toy instance: for every witness byte and  *)
(* every Delta, prover and verifier agree exactly when the witness         *)
(* satisfies the S-box constraint, the hash key vanishes, or Delta is a root *)
(* of X(X+1) (the prover's middle coefficient carries the error too, so     *)
(* the difference is e*Delta*(Delta+1)).                                    *)
(***************************************************************************)
EXTENDS Toy
CONSTANTS Keys, Ws, Challs
VARIABLES key0, w0, delta0, ch0
P0 == ToyP(2)
Inp0 == <<17>>
Out0 == Owf(P0, <<key0>>, Inp0)
u0 == <<201, 57, 3, 4>>
v0 == [j \in 1..8 |-> <<(j * 37) % 256, (j * 91 + 5) % 256, (j * 11) % 256, j>>]
Init == key0 \in Keys /\ w0 \in Ws /\ delta0 \in 0..255 /\ ch0 \in Challs
Next == UNCHANGED <<key0, w0, delta0, ch0>>
Spec == Init /\ [][Next]_<<key0, w0, delta0, ch0>>
Chall == <<ch0, (7 * ch0 + 13) % 256, (ch0 * 5) % 256, 77>>
Q0 == [j \in 1..8 |-> IF BitAt(<<delta0>>, j - 1) = 1 THEN XorB(v0[j], u0) ELSE v0[j]]
Kappa == XorB(<<Chall[1]>>, <<Chall[2]>>)
Exact ==
  \E pf \in {Prove(P0, <<w0>>, u0, v0, Inp0, Out0, Chall)} :
  \* the verifier adds the committed difference w + u for set bits of Delta to the witness part
  LET b2 == VerifyB(P0, XorB(<<w0>>, SubSeq(u0, 1, 1)), Q0, Chall, <<delta0>>, pf.a, Inp0, Out0)
      sat == Satisfied(P0, <<w0>>, Inp0, Out0)
  IN /\ sat <=> w0 = key0
     /\ (pf.b = b2) <=> (sat \/ delta0 \in {0, 1} \/ Kappa = <<0>>)
=============================================================================
