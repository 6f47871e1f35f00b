------------------------------ MODULE MCLayout ------------------------------
(***************************************************************************)
(* Derived parameters and signature layout, for the twelve sets and for    *)
(* every other repetition count that gives usable tree depths.             *)
(***************************************************************************)
EXTENDS Params
VARIABLE p
Init == p = <<>>
Next == /\ p = <<>>
        /\ \E lam \in {128, 192, 256}, em \in BOOLEAN : \E tau \in {t \in 8..64 : CeilDiv(lam, t) <= 12} : p' = Derive(lam, em, tau)
Spec == Init /\ [][Next]_p
Sane == p # <<>> => Consistent(p)
(* bit positions of the challenge are used exactly once *)
Columns == p # <<>> =>
  /\ \A i \in 1..(p.tau - 1) : ColBase(p, i) + Depth(p, i) = ColBase(p, i + 1)
  /\ ColBase(p, 1) = 0 /\ ColBase(p, p.tau) + Depth(p, p.tau) = p.lam
(* the published sizes *)
Published == << <<5006, 32, 32>>, <<6336, 32, 32>>, <<12744, 64, 56>>, <<16792, 64, 56>>, <<22100, 64, 64>>, <<28400, 64, 64>>,
                <<4566, 32, 32>>, <<5696, 32, 32>>, <<10824, 48, 48>>, <<13912, 48, 48>>, <<20956, 64, 64>>, <<26736, 64, 64>> >>
ASSUME \A i \in 1..12 : <<ParamOf[i].sig, ParamOf[i].pk, ParamOf[i].sk>> = Published[i]
=============================================================================
