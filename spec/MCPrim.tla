------------------------------- MODULE MCPrim -------------------------------
(***************************************************************************)
(* The primitives evaluated by Java code (module Prim) agree with their    *)
(* definitions in TLA+ (PrimDef, Rijndael), on a family of inputs.         *)
(***************************************************************************)
EXTENDS Prim
CONSTANT N
VARIABLE n
Init == n \in 1..N
Next == UNCHANGED n
Spec == Init /\ [][Next]_n
Bytes_(seed, k) == TLCEval([i \in 1..k |-> (seed * 37 + i * (101 + 2 * seed) + ((i * i * 7) % 251) + (IF seed % 5 = 0 THEN 255 - (i % 3) ELSE 0)) % 256])
Larg == <<1, 8, 16, 24, 32>>[(n % 5) + 1]
Aarg == Bytes_(n, Larg)
Bbarg == Bytes_(n + 1000, Larg)
GfOk == GfMul(Aarg, Bbarg) = GfMulDef(Aarg, Bbarg) /\ GfMul(Aarg, Zeros(Larg)) = Zeros(Larg)
XorOk == XorB(Aarg, Bbarg) = XorBDef(Aarg, Bbarg)
CatsOk == Cat(<<Aarg, <<>>, Bbarg, Aarg>>) = CatDef(<<Aarg, <<>>, Bbarg, Aarg>>)
TrOk == LET cols == [j \in 1..16 |-> Bytes_(n * j, 4)] IN Transpose(cols, 30) = TransposeDef(cols, 30)
RXOk == LET d == n % 5  rows == [j \in 1..Pow2[d] |-> Bytes_(n + 31 * j, 5)] IN RowXor(rows, 5) = RowXorDef(rows, 5)
HoOk == LET xs == [j \in 1..(n % 4) |-> Bytes_(n + j, Larg)] IN Horner(Larg, Aarg, xs) = HornerDef(Larg, Aarg, xs)
KfOk == n % 4 = 0 => KeccakF(Bytes_(n, 200)) = KeccakFDef(Bytes_(n, 200))
ShOk == LET sec == IF n % 2 = 0 THEN 128 ELSE 256
          m == Bytes_(n, <<0, 1, 135, 136, 137, 167, 168, 169, 300>>[(n % 9) + 1])
          k == <<1, 16, 32, 136, 168, 169, 400>>[(n % 7) + 1]
      IN n % 3 = 0 => Shake(sec, m, k) = ShakeDef(sec, m, k)
RunOk == LET m == Bytes_(n, n % 7)  z == n * 5 IN
       ShakeRun(256, m, 0, z, Aarg, 40) = Shake(256, m \o Zeros(z) \o Aarg, 40) /\ ShakeRun(128, m, 0, z, Aarg, 40) = Shake(128, m \o Zeros(z) \o Aarg, 40)
CtrOk == LET k == Bytes_(n, <<16, 24, 32>>[(n % 3) + 1])
           iv == IF n % 2 = 0 THEN Bytes_(n, 16) ELSE [i \in 1..16 |-> IF i > n % 17 THEN 255 ELSE n % 256]
       IN AesCtr(k, iv, 1 + n) = AesCtrDef(k, iv, 1 + n)
=============================================================================
