-------------------------------- MODULE Drbg --------------------------------
(***************************************************************************)
(* AES-256 CTR_DRBG without derivation function (SP 800-90A), as used for  *)
(* known-answer files.  AesCtr(key, iv, n): n bytes of AES of iv, iv+1, .. *)
(***************************************************************************)
EXTENDS Prim
Inc(v) == IncIv(v)
RECURSIVE IncBy(_, _)
IncBy(v, k) == IF k = 0 THEN v ELSE IncBy(TLCEval(Inc(v)), k - 1)
Update(key, v, data) ==
  LET t == XorB(AesCtr(key, Inc(v), 48), data) IN [key |-> SubSeq(t, 1, 32), v |-> SubSeq(t, 33, 48)]
Instantiate(entropy, pers) ==
  Update(Zeros(32), Zeros(16), IF pers = <<>> THEN entropy ELSE XorB(entropy, pers))
Generate(s, n) ==
  LET blocks == (n + 15) \div 16 IN
  [out |-> IF n = 0 THEN <<>> ELSE AesCtr(s.key, Inc(s.v), n),
   next |-> Update(s.key, IncBy(s.v, blocks), Zeros(48))]
=============================================================================
