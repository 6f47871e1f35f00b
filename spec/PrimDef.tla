------------------------------- MODULE PrimDef -------------------------------
(***************************************************************************)
(* Primitive operations on byte strings (sequences over 0..255), written   *)
(* out as TLA+ definitions: XOR, binary-field multiplication, Keccak and   *)
(* SHAKE, Rijndael and AES counter mode.  Module Prim gives the same       *)
(* operators to the rest of the specification; there TLC may evaluate them *)
(* with Java code (java/Prim.java).  Module MCPrim checks that both agree. *)
(* All integers stay below 2^31 (TLC's integers have 32 bits).             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, Bitwise, TLC, SequencesExt

Pow2 == [i \in 0..16 |-> 2^i]
Zeros(n) == [i \in 1..n |-> 0]
XorBDef(a, b) == [i \in 1..Len(a) |-> a[i] ^^ b[i]]
CatDef(ss) == FoldLeftDomain(LAMBDA s, i : s \o ss[i], <<>>, ss)
BitAt(bs, i) == (bs[(i \div 8) + 1] \div Pow2[i % 8]) % 2      \* i from 0, little-endian
(* cols: sequence of byte strings; result: for row r (from 0) the bits of all columns, packed *)
TransposeDef(cols, nrows) ==
  [r \in 1..nrows |->
     [k \in 1..(Len(cols) \div 8) |->
        LET B(j) == BitAt(cols[8*(k-1) + j + 1], r - 1) * Pow2[j]
        IN B(0) + B(1) + B(2) + B(3) + B(4) + B(5) + B(6) + B(7)]]

----------------------------------------------------------------------------
(* Binary fields.  An element of GF(2^(8n)) is a byte string of length n,  *)
(* least significant byte first.                                           *)
RedPoly(n) == CASE n = 1  -> <<27>>          \* x^8+x^4+x^3+x+1
                [] n = 8  -> <<27>>          \* x^64+x^4+x^3+x+1
                [] n = 16 -> <<135>>         \* x^128+x^7+x^2+x+1
                [] n = 24 -> <<135>>         \* x^192+x^7+x^2+x+1
                [] n = 32 -> <<37, 4>>       \* x^256+x^10+x^5+x^2+1
MulX(a) ==
  LET n == Len(a)  c == a[n] \div 128  p == RedPoly(n) IN
  [i \in 1..n |->
     LET s == ((a[i] * 2) % 256) + (IF i = 1 THEN 0 ELSE a[i-1] \div 128)
     IN IF c = 1 /\ i <= Len(p) THEN s ^^ p[i] ELSE s]
(* Horner over the bits of b *)
GfMulDef(a, b) ==
  LET n == Len(a)
      step(acc, k) == LET d == TLCEval(MulX(acc))
                          i == 8*n - k
                      IN IF BitAt(b, i) = 1 THEN TLCEval(XorBDef(d, a)) ELSE d
  IN FoldLeftDomain(step, TLCEval(Zeros(n)), [i \in 1..8*n |-> 0])

----------------------------------------------------------------------------
(* Keccak-f[1600] on a state of 200 bytes; lanes are 4 limbs of 16 bits.   *)
Lane(bs, k) == [j \in 1..4 |-> bs[8*k + 2*j - 1] + 256 * bs[8*k + 2*j]]
XorL(a, b) == <<a[1] ^^ b[1], a[2] ^^ b[2], a[3] ^^ b[3], a[4] ^^ b[4]>>
NotAndL(a, b) == [j \in 1..4 |-> (65535 - a[j]) & b[j]]
RotL(a, r) == LET q == r \div 16  s == r % 16 IN
  [j \in 1..4 |-> ((a[((j - 1 - q) % 4) + 1] * Pow2[s]) % 65536)
                  + (a[((j - 2 - q) % 4) + 1] \div Pow2[16 - s])]
(* rc bits by the degree-8 LFSR of FIPS 202 *)
LfsrStep(r, k) == LET t == r * 2 IN IF t >= 256 THEN (t % 256) ^^ 113 ELSE t
LfsrSeq == FoldLeftDomain(LAMBDA s, k : Append(s, LfsrStep(s[Len(s)], k)), <<1>>, [i \in 1..254 |-> 0])
RcBits == [t \in 0..254 |-> LfsrSeq[t + 1] % 2]
RC == TLCEval([ir \in 0..23 |-> [j \in 1..4 |->
  LET F(l) == LET pos == Pow2[l] - 1
              IN IF (pos \div 16) + 1 = j THEN RcBits[(7*ir + l) % 255] * Pow2[pos % 16] ELSE 0
  IN F(0) + F(1) + F(2) + F(3) + F(4) + F(5) + F(6)]])
(* rotation offsets by walking (x,y) -> (y, 2x+3y) *)
RhoOffsets == TLCEval(LET step(s, t) == LET x == s.y  y == (2 * s.x + 3 * s.y) % 5
                                IN [x |-> x, y |-> y, r |-> [s.r EXCEPT ![s.x + 5 * s.y] = ((t * (t + 1)) \div 2) % 64]]
              IN FoldLeftDomain(step, [x |-> 1, y |-> 0, r |-> [i \in 0..24 |-> 0]], [i \in 1..24 |-> 0]).r)
KeccakRound(A, ir) ==
  LET C == TLCEval([x \in 0..4 |-> XorL(A[x], XorL(A[x+5], XorL(A[x+10], XorL(A[x+15], A[x+20]))))])
      D == TLCEval([x \in 0..4 |-> XorL(C[(x + 4) % 5], RotL(C[(x + 1) % 5], 1))])
      B == TLCEval([i \in 0..24 |->     \* pi: B[y, 2x+3y] = rot(A[x,y]); inverse: x' = x+3y, y' = x
             LET X == i % 5  Y == i \div 5  x == (X + 3 * Y) % 5  y == X
             IN RotL(XorL(A[x + 5*y], D[x]), RhoOffsets[x + 5*y])])
  IN TLCEval([i \in 0..24 |->
       LET X == i % 5  Y == i \div 5
           v == XorL(B[i], NotAndL(B[((X + 1) % 5) + 5*Y], B[((X + 2) % 5) + 5*Y]))
       IN IF i = 0 THEN XorL(v, RC[ir]) ELSE v])
KeccakFDef(bs) ==
  LET A0 == TLCEval([i \in 0..24 |-> Lane(bs, i)])
      A == FoldLeftDomain(LAMBDA s, k : KeccakRound(s, k - 1), A0, [i \in 1..24 |-> 0])
  IN TLCEval([i \in 1..200 |-> LET l == (i - 1) \div 8  j == ((i - 1) % 8) \div 2 IN
       IF (i - 1) % 2 = 0 THEN A[l][j + 1] % 256 ELSE A[l][j + 1] \div 256])
Rate(sec) == IF sec = 128 THEN 168 ELSE 136
(* one-shot SHAKE128 (sec = 128) / SHAKE256 (otherwise) *)
ShakeDef(sec, m, outlen) ==
  LET r == Rate(sec)
      q == r - (Len(m) % r)
      pad == IF q = 1 THEN <<159>> ELSE <<31>> \o Zeros(q - 2) \o <<128>>
      p == m \o pad
      absorb(s, k) == KeccakFDef(TLCEval([i \in 1..200 |-> IF i <= r THEN s[i] ^^ p[(k - 1)*r + i] ELSE s[i]]))
      s0 == FoldLeftDomain(absorb, TLCEval(Zeros(200)), [i \in 1..(Len(p) \div r) |-> 0])
      nb == (outlen + r - 1) \div r
      squeeze(a, k) == IF k = 1 THEN [s |-> s0, o |-> SubSeq(s0, 1, r)]
                       ELSE LET s == KeccakFDef(a.s) IN [s |-> s, o |-> a.o \o SubSeq(s, 1, r)]
  IN IF outlen = 0 THEN <<>>
     ELSE SubSeq(FoldLeftDomain(squeeze, [s |-> s0, o |-> <<>>], [i \in 1..nb |-> 0]).o, 1, outlen)

----------------------------------------------------------------------------
(* GF(2^8) and the S-box.                                                   *)
XTime(a) == LET t == a * 2 IN IF t >= 256 THEN (t % 256) ^^ 27 ELSE t
Mul8(a, b) == GfMulDef(<<a>>, <<b>>)[1]
(* powers of the generator x+1; inverses from them (0 for 0) *)
Exp3 == TLCEval(FoldLeftDomain(LAMBDA s, k : Append(s, XTime(s[k]) ^^ s[k]), <<1>>, [i \in 1..254 |-> 0]))
Inv8Table == TLCEval(LET log == [a \in 1..255 |-> CHOOSE i \in 1..255 : Exp3[i] = a]
                     IN [a \in 0..255 |-> IF a = 0 THEN 0 ELSE Exp3[((256 - log[a]) % 255) + 1]])
Rot8(b, k) == ((b * Pow2[k]) % 256) + (b \div Pow2[8 - k])
Affine(b) == b ^^ (Rot8(b, 1) ^^ (Rot8(b, 2) ^^ (Rot8(b, 3) ^^ (Rot8(b, 4) ^^ 99))))
(* (built by a fold because TLC would not cache a definition that uses ^^ directly) *)
SboxSeq == TLCEval(FoldLeftDomain(LAMBDA s, k : Append(s, Affine(Inv8Table[k - 1])), <<>>, [i \in 1..256 |-> 0]))
SboxTable == TLCEval([a \in 0..255 |-> SboxSeq[a + 1]])
(* xor-combination of 2^d rows: << xor of all, xor of rows with index bit 0 set, ..., bit d-1 set >> *)
RowXorDef(rows, n) ==
  LET xall(ss) == FoldLeftDomain(LAMBDA s, i : XorBDef(s, ss[i]), TLCEval([i \in 1..n |-> 0]), ss)
      step(s, j) ==
        LET half == Len(s.r) \div 2
        IN [v |-> Append(s.v, TLCEval(xall([i \in 1..half |-> s.r[2*i]]))),
            r |-> TLCEval([i \in 1..half |-> TLCEval(XorBDef(s.r[2*i - 1], s.r[2*i]))])]
      depth == CHOOSE d \in 0..12 : Pow2[d] = Len(rows)
      e == FoldLeftDomain(step, [v |-> <<>>, r |-> rows], [i \in 1..depth |-> 0])
  IN <<e.r[1]>> \o e.v
HornerDef(n, s, xs) == FoldLeftDomain(LAMBDA h, i : XorBDef(GfMulDef(h, s), xs[i]), TLCEval([i \in 1..n |-> 0]), xs)
=============================================================================
