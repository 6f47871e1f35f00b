------------------------------ MODULE Helpers ------------------------------
(***************************************************************************)
(* The small portable helpers: bit counting, rotation, byte order, checked *)
(* subtraction, comparison, erasure and aligned allocation.  Machine words *)
(* are byte sequences, least significant byte first; BitAt counts bits     *)
(* from 0.                                                                 *)
(***************************************************************************)
EXTENDS Prim

Bits(w) == {i \in 0..(8 * Len(w) - 1) : BitAt(w, i) = 1}
Parity(w) == Cardinality(Bits(w)) % 2
MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x
MinOf(S) == CHOOSE x \in S : \A y \in S : y >= x
Clz(w) == IF Bits(w) = {} THEN 8 * Len(w) ELSE 8 * Len(w) - 1 - MaxOf(Bits(w))
(* the least k with w <= 2^k (0 for zero) *)
CeilLog2(w) == LET b == Bits(w) IN IF b = {} THEN 0 ELSE MaxOf(b) + IF Cardinality(b) = 1 THEN 0 ELSE 1
Rotl8(n, c) == LET s == c % 8 IN ((n * 2^s) % 256) + ((n * 2^s) \div 256)
Rotr8(n, c) == Rotl8(n, 8 - (c % 8))
Swapped(w) == [i \in 1..Len(w) |-> w[Len(w) + 1 - i]]
(* x - y modulo 2^(8 Len), and whether it borrows *)
RECURSIVE SubB(_, _, _, _)
SubB(x, y, i, borrow) ==
  IF i > Len(x) THEN [d |-> <<>>, under |-> borrow = 1]
  ELSE LET v == x[i] - y[i] - borrow
           r == SubB(x, y, i + 1, IF v < 0 THEN 1 ELSE 0)
       IN [d |-> <<IF v < 0 THEN v + 256 ELSE v>> \o r.d, under |-> r.under]
Sub(x, y) == SubB(x, y, 1, 0)
(* comparison: zero iff equal *)
SameBytes(a, b) == a = b
(* a request for aligned memory *)
PowerOf2(al) == Cardinality(Bits(al)) = 1
MultipleOf(size, al) == \A i \in Bits(size) : i >= MinOf(Bits(al))
Proper(al, size) == PowerOf2(al) /\ MultipleOf(size, al)
Huge(size) == \E i \in Bits(size) : i >= 47
=============================================================================
