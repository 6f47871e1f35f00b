-------------------------------- MODULE Leak --------------------------------
(***************************************************************************)
(* What an execution lets an observer of program points and addresses see  *)
(* (its trace, condensed to counts and digests per segment) is a function  *)
(* of public data.  The state is the part of that function seen so far;    *)
(* public data of an operation: its public arguments and what it publishes *)
(* (validity of the key, the verdict, the number of keys tried).           *)
(***************************************************************************)
EXTENDS Faest

VARIABLE leak      \* public data -> trace
LeakInit == leak = << >>
Observe(pub, trace) ==
  IF pub \in DOMAIN leak THEN leak[pub] = trace /\ UNCHANGED leak
  ELSE leak' = (pub :> trace) @@ leak

(* key evaluation *)
EvalPub(P, s, key, inp) == <<"owf", s, inp, Valid(P, key, inp)>>
(* key-pair validation: verdict 0 valid pair, 1 no key, 2 another public key.  The inputs in both keys are public. *)
Verdict(P, pk, sk) ==
  LET inp == OwfInOf(P, sk)  key == SkKey(P, sk) IN
  IF ~Valid(P, key, inp) THEN 1
  ELSE IF pk = inp \o OwfOut(P.lam, P.em, key, inp) THEN 0 ELSE 2
ValidatePub(P, s, pk, sk) == <<"validate", s, OwfInOf(P, pk), OwfInOf(P, sk), Verdict(P, pk, sk)>>
(* signing, with the published hash values (challenges, IV, commitments) given by a number *)
SignPub(P, s, sk, mlen, rlen, pinned) == <<"sign", s, OwfInOf(P, sk), mlen, rlen, pinned, Valid(P, SkKey(P, sk), OwfInOf(P, sk))>>
(* key generation: the inputs of the candidates drawn are published with the key or dropped; how many there were is seen *)
KeygenPub(P, s, stream) ==
  LET cand(i) == SubSeq(stream, (i - 1) * P.sk + 1, i * P.sk)
      n == Len(stream) \div P.sk
      last == CHOOSE i \in 1..n : /\ Valid(P, SkKey(P, cand(i)), OwfInOf(P, cand(i)))
                                  /\ \A j \in 1..(i - 1) : ~Valid(P, SkKey(P, cand(j)), OwfInOf(P, cand(j)))
  IN <<"keygen", s, last, [i \in 1..last |-> OwfInOf(P, cand(i))]>>
=============================================================================
