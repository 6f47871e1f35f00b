------------------------------ MODULE MCField ------------------------------
(***************************************************************************)
(* The embedding of GF(2^8) into the large fields is a ring homomorphism   *)
(* (all pairs), inversion is exact, and the reduction polynomials give     *)
(* fields in which the constant alpha has the minimal polynomial of x.     *)
(***************************************************************************)
EXTENDS Faest
VARIABLES vlam, va, vb
Init == vlam = 0 /\ va = 0 /\ vb = 0
Next == vlam = 0 /\ vlam' \in {128, 192, 256} /\ va' \in 0..255 /\ vb' \in {0, 1, 2, 4, 8, 16, 32, 64, 128, 3, 255, 142, 83, 202}
Spec == Init /\ [][Next]_<<vlam, va, vb>>
M8(x, y) == GfMul(<<x>>, <<y>>)[1]
E(x) == EmbTable[vlam][x]
Hom == vlam # 0 => E(M8(va, vb)) = GfMul(E(va), E(vb)) /\ E(va ^^ vb) = XorB(E(va), E(vb))
InverseOk == vlam # 0 => M8(va, Inv8Table[va]) = IF va = 0 THEN 0 ELSE 1
Injective == vlam # 0 => (E(va) = E(vb)) = (va = vb)
Frob == vlam # 0 /\ vb = 2 /\ va % 16 = 5 => FoldLeftDomain(LAMBDA y, i : GfMul(y, y), XorB(E(va), [i \in 1..(vlam \div 8) |-> i]), [i \in 1..vlam |-> 0])
                 = XorB(E(va), [i \in 1..(vlam \div 8) |-> i])
=============================================================================
