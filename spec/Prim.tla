-------------------------------- MODULE Prim --------------------------------
(***************************************************************************)
(* The primitive operators used by the specification.  Each is defined by  *)
(* PrimDef / Rijndael; with java/Prim.class on the class path TLC          *)
(* evaluates the ones named there natively.  MCPrim checks the agreement.  *)
(***************************************************************************)
EXTENDS Rijndael

XorB(a, b) == XorBDef(a, b)
Cat(ss) == CatDef(ss)
Transpose(cols, nrows) == TransposeDef(cols, nrows)
GfMul(a, b) == GfMulDef(a, b)
RowXor(rows, n) == RowXorDef(rows, n)
(* xs[1]*s^(k-1) + ... + xs[k], elements of n bytes *)
Horner(n, s, xs) == HornerDef(n, s, xs)
KeccakF(s) == KeccakFDef(s)
Shake(sec, m, n) == ShakeDef(sec, m, n)
(* of pre, then 65536 zk + zc zero bytes, then suf *)
ShakeRun(sec, pre, zk, zc, suf, n) == Shake(sec, pre \o Zeros(65536 * zk + zc) \o suf, n)
AesCtr(key, iv, n) == AesCtrDef(key, iv, n)
(* hexadecimal string -> bytes (trace input only) *)
Hex(s) == CHOOSE b \in Seq(0..255) : FALSE
=============================================================================
