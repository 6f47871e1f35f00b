-------------------------------- MODULE Toy --------------------------------
(***************************************************************************)
(* Parameter records for an 8-bit instance of the scheme: same structure,  *)
(* one S-box as the one-way function.  Small enough to enumerate every     *)
(* key, challenge and witness.                                             *)
(***************************************************************************)
EXTENDS Faest
ToyP(tau) ==
  LET k0 == CeilDiv(8, tau)  k1 == 8 \div tau  t0 == 8 % tau  t1 == tau - t0 IN
  [toy |-> TRUE, lam |-> 8, em |-> FALSE, tau |-> tau, nwd |-> 1, nb |-> 1, R |-> 1, beta |-> 1,
   ske |-> 0, senc |-> 1, lke |-> 8, lenc |-> 0, l |-> 8, k0 |-> k0, k1 |-> k1, t0 |-> t0, t1 |-> t1,
   lb |-> 1, ub |-> 1, tb |-> 1, hb |-> 4, ivb |-> 2, pk |-> 2, sk |-> 2,
   sig |-> (tau - 1) * 4 + 2 + 1 + 1 + (t0 * (k0 + 2) + t1 * (k1 + 2)) + 1 + 2]
=============================================================================
