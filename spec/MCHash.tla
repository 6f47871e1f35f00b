------------------------------- MODULE MCHash -------------------------------
(***************************************************************************)
(* The universal hashes on the toy field GF(2^8).  Fed element by element, *)
(* with a running product, the ZK hash is the polynomial hash of the       *)
(* specification; both hashes are linear; every element counts: a          *)
(* difference in the inputs is lost only for the roots of a polynomial of  *)
(* smaller degree than the number of elements, and one in the mask never.  *)
(***************************************************************************)
EXTENDS Toy
CONSTANTS Keys, Elems, MaxLen
VARIABLES s, t, xs, h0, h1
vars == <<s, t, xs, h0, h1>>
P == ToyP(1)
Init == s \in Keys /\ t \in Keys /\ xs = <<>> /\ h0 = <<0>> /\ h1 = <<0>>
Feed(e) == /\ Len(xs) < MaxLen /\ xs' = Append(xs, <<e>>)
           /\ h0' = XorB(GfMul(h0, <<s>>), <<e>>) /\ h1' = XorB(GfMul(h1, <<t>>), <<e>>) /\ UNCHANGED <<s, t>>
Next == \E e \in Elems : Feed(e)
Spec == Init /\ [][Next]_vars
----------------------------------------------------------------------------
Zk(x, x1) == ZkHash(P, <<3, 91, s, t>>, x, x1)
Incremental == /\ h0 = Horner(1, <<s>>, xs) /\ h1 = Horner(1, <<t>>, xs)
               /\ \A x1 \in {<<0>>, <<200>>} : Zk(xs, x1) = XorB(XorB(GfMul(<<3>>, h0), GfMul(<<91>>, h1)), x1)
Plus(x, y) == [i \in 1..Len(x) |-> XorB(x[i], y[i])]
Others == {[i \in 1..Len(xs) |-> <<(37 * i + 5) % 256>>], [i \in 1..Len(xs) |-> <<IF i = 1 THEN 128 ELSE 0>>], Reverse(xs)}
Linear == \A y \in Others : Zk(Plus(xs, y), <<77>>) = XorB(Zk(xs, <<77>>), Zk(y, <<0>>))
NonZero == \E i \in 1..Len(xs) : xs[i] # <<0>>
FewRoots == s = 1 /\ t = 1 /\ NonZero => Cardinality({k \in 0..255 : Horner(1, <<k>>, xs) = <<0>>}) <= Len(xs) - 1
(* the VOLE hash: two bytes of input, two of mask; four products *)
Vole(sd, x) == VoleHash(P, sd, x)
Sd == <<7, 99, 200, 33, s, t>>
Bit(i) == [j \in 1..4 |-> IF (i \div 8) + 1 = j THEN Pow2[i % 8] ELSE 0]
VoleLinear == xs = <<>> =>
  /\ \A i, j \in 0..31 : Vole(Sd, XorB(Bit(i), Bit(j))) = XorB(Vole(Sd, Bit(i)), Vole(Sd, Bit(j)))
  /\ (s # 0 \/ t # 0) => \A i \in 0..15 : \E k \in 1..20 : Vole(<<k, k + 1, 0, k, s, t>>, Bit(i)) # Zeros(2)
  /\ \A i \in 16..31 : Vole(Sd, Bit(i)) # Zeros(2)
=============================================================================
