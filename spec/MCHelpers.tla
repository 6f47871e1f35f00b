----------------------------- MODULE MCHelpers -----------------------------
(***************************************************************************)
(* The algorithms of the fallback helpers against their definitions, on    *)
(* machine words of 8 bits: parity by folding, leading zeros by halving,   *)
(* comparison by accumulating differences, and aligned allocation by       *)
(* over-allocation (with the word's overflow).                             *)
(***************************************************************************)
EXTENDS Helpers
VARIABLE x
Word == 0..255
Shr(n, k) == n \div 2^k
Shl(n, k) == (n * 2^k) % 256
FoldParity(n) == LET a == n ^^ Shr(n, 4) b == a ^^ Shr(a, 2) c == b ^^ Shr(b, 1) IN c % 2
HalvingClz(n0) ==
  IF n0 = 0 THEN 8
  ELSE LET a == IF Shr(n0, 4) = 0 THEN [n |-> 5, x |-> Shl(n0, 4)] ELSE [n |-> 1, x |-> n0]
           b == IF Shr(a.x, 6) = 0 THEN [n |-> a.n + 2, x |-> Shl(a.x, 2)] ELSE a
       IN b.n - Shr(b.x, 7)
AccEqual(a, b) == FoldLeftDomain(LAMBDA r, i : r | (a[i] ^^ b[i]), 0, a) = 0
SumEqual(a, b) == FoldLeftDomain(LAMBDA r, i : (r + (a[i] ^^ b[i])) % 256, 0, a) = 0
(* over-allocation: al, size: machine words; base: address delivered (a multiple of 4) for a block of n bytes.
   Returns the pointer, or -1 *)
Over(al, size, base) ==
  IF ~Proper(<<al>>, <<size>>) \/ size = 0 THEN -1
  ELSE LET offset == al IN
       IF size > 255 - offset THEN -1                       \* the sum would not fit
       ELSE LET n == (size + offset) % 256
                ptr == ((base + offset) \div al) * al
            IN IF base + n > 255 THEN -1                    \* no memory
               ELSE IF ptr - base > 15 THEN -1              \* the distance does not fit
               ELSE ptr
Init == x \in [k : {"word"}, n : Word] \cup [k : {"alloc"}, al : Word, size : Word] \cup [k : {"cmp"}, a : [1..3 -> {0, 1, 2, 128, 255}]]
Next == FALSE /\ UNCHANGED x
Spec == Init /\ [][Next]_x
WordHelpers ==
  x.k = "word" =>
    /\ FoldParity(x.n) = Parity(<<x.n>>)
    /\ HalvingClz(x.n) = Clz(<<x.n>>)
    /\ CeilLog2(<<x.n>>) = IF x.n = 0 THEN 0 ELSE MinOf({k \in 0..8 : x.n <= 2^k})
    /\ \A c \in 0..15 : Rotr8(Rotl8(x.n, c), c) = x.n
    /\ \A y \in {0, 1, 2, 127, 128, 254, 255, x.n} : LET s == Sub(<<x.n>>, <<y>>) IN s.d[1] = ((x.n - y) % 256) /\ s.under = (x.n < y)
Compare == x.k = "cmp" => \A b \in [1..3 -> {0, 1, 2, 128, 255}] : AccEqual(x.a, b) = (x.a = b)
Allocate ==
  x.k = "alloc" => \A base \in {4 * i : i \in 0..15} :
    LET p == Over(x.al, x.size, base) IN
    p # -1 => /\ Proper(<<x.al>>, <<x.size>>) /\ p % x.al = 0
              /\ p > base /\ p + x.size <= base + x.size + x.al /\ base + x.size + x.al <= 255
=============================================================================
