------------------------------- MODULE Params -------------------------------
(***************************************************************************)
(* Parameter sets, derived from (security level, Even-Mansour?, number of  *)
(* VOLE repetitions), and the layout of a signature.                       *)
(***************************************************************************)
EXTENDS Prim

CeilDiv(a, b) == (a + b - 1) \div b

(* cipher: rounds, S-boxes in the key schedule / one encryption, bits of the witness *)
Derive(lam, em, tau) ==
  LET nk == lam \div 32
      nb == IF em THEN nk ELSE 4
      r == Rounds(nk, nb)
      beta == IF em \/ lam = 128 THEN 1 ELSE 2
      words == 4 * (r + 1)                          \* AES round-key words
      subw == Cardinality({i \in nk..(words-1) : i % nk = 0 \/ (nk > 6 /\ i % nk = 4)})
      ske == IF em THEN 0 ELSE 4 * subw
      senc == 4 * nb * r
      lke == IF em THEN lam ELSE lam + 8 * ske      \* key bits and committed key-schedule words
      lenc == 32 * nb * (r - 1)                     \* committed round states of one block
      l == lke + beta * lenc
      k0 == CeilDiv(lam, tau)
      k1 == lam \div tau
      t0 == lam % tau
      t1 == tau - t0
      lb == lam \div 8
      hb == l \div 8 + 2 * lb + 2
      pk == 2 * beta * 4 * nb
  IN [toy |-> FALSE, lam |-> lam, em |-> em, tau |-> tau, nwd |-> nk, nb |-> nb, R |-> r, beta |-> beta,
      ske |-> ske, senc |-> senc, lke |-> lke, lenc |-> lenc, l |-> l,
      k0 |-> k0, k1 |-> k1, t0 |-> t0, t1 |-> t1,
      lb |-> lb, ub |-> 2, tb |-> 8, hb |-> hb,     \* bytes: lambda, B, |t|, ell-hat
      ivb |-> 16, pk |-> pk, sk |-> pk \div 2 + lb,
      sig |-> (tau - 1) * hb + (lb + 2) + l \div 8 + lb + (t0 * (k0 + 2) + t1 * (k1 + 2)) * lb + lb + 16]

Names == << "FAEST_128S", "FAEST_128F", "FAEST_192S", "FAEST_192F", "FAEST_256S", "FAEST_256F",
            "FAEST_EM_128S", "FAEST_EM_128F", "FAEST_EM_192S", "FAEST_EM_192F", "FAEST_EM_256S", "FAEST_EM_256F" >>
Sets == << "128s", "128f", "192s", "192f", "256s", "256f",
           "em_128s", "em_128f", "em_192s", "em_192f", "em_256s", "em_256f" >>
ParamOf == TLCEval([i \in 1..12 |->
   LET lam == 128 + 64 * (((i - 1) % 6) \div 2)
       em == i > 6
       small == i % 2 = 1
       tau == CASE lam = 128 -> IF small THEN 11 ELSE 16
                [] lam = 192 -> IF small THEN 16 ELSE 24
                [] lam = 256 -> IF small THEN 22 ELSE 32
   IN Derive(lam, em, tau)])
IdOf(s) == CHOOSE i \in 1..12 : Sets[i] = s
PS(s) == ParamOf[IdOf(s)]

Depth(P, i) == IF i <= P.t0 THEN P.k0 ELSE P.k1          \* repetitions numbered from 1
ColBase(P, i) == IF i <= P.t0 THEN (i - 1) * P.k0 ELSE P.t0 * P.k0 + (i - 1 - P.t0) * P.k1

(* Offsets (from 0) and lengths of the fields of a signature. *)
OffC(P, i) == (i - 1) * P.hb                             \* i in 1..tau-1
OffU(P) == (P.tau - 1) * P.hb
OffD(P) == OffU(P) + P.lb + P.ub
OffA(P) == OffD(P) + P.l \div 8
OffP(P, i) == OffA(P) + P.lb + P.lb * (IF i <= P.t0 THEN (i - 1) * (P.k0 + 2)
                                        ELSE P.t0 * (P.k0 + 2) + (i - 1 - P.t0) * (P.k1 + 2))
OffCom(P, i) == OffP(P, i) + Depth(P, i) * P.lb
OffCh3(P) == P.sig - P.ivb - P.lb
OffIv(P) == P.sig - P.ivb
At(s, off, len) == SubSeq(s, off + 1, off + len)

(* all fields, in order: <<offset, length>> *)
Fields(P) ==
  [i \in 1..(P.tau - 1) |-> <<OffC(P, i), P.hb>>]
  \o << <<OffU(P), P.lb + P.ub>>, <<OffD(P), P.l \div 8>>, <<OffA(P), P.lb>> >>
  \o [i \in 1..2*P.tau |-> LET j == (i + 1) \div 2 IN
        IF i % 2 = 1 THEN <<OffP(P, j), Depth(P, j) * P.lb>> ELSE <<OffCom(P, j), 2 * P.lb>>]
  \o << <<OffCh3(P), P.lb>>, <<OffIv(P), P.ivb>> >>
Tiles(P) == LET f == Fields(P) IN
  /\ f[1][1] = 0
  /\ \A i \in 1..(Len(f) - 1) : f[i][1] + f[i][2] = f[i+1][1]
  /\ f[Len(f)][1] + f[Len(f)][2] = P.sig
Consistent(P) == /\ P.t0 * P.k0 + P.t1 * P.k1 = P.lam /\ P.t0 + P.t1 = P.tau
                 /\ P.k0 - P.k1 \in {0, 1} /\ P.k0 <= 12
                 /\ P.l % 8 = 0 /\ P.ske * 8 + (IF P.em THEN P.lam ELSE P.lam) = P.lke
                 /\ Tiles(P)
(* C, the number of S-box constraints *)
NumC(P) == P.ske + P.beta * P.senc
=============================================================================
