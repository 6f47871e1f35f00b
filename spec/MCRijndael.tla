----------------------------- MODULE MCRijndael -----------------------------
(***************************************************************************)
(* Known answers of the cipher specification (FIPS 197), and: the extended *)
(* witness satisfies the circuit of the proof, for every parameter set     *)
(* family; with any one witness byte changed it does not.                  *)
(***************************************************************************)
EXTENDS Faest
CONSTANT Step           \* every Step-th witness byte is altered
Seq16(n) == [i \in 1..n |-> i - 1]
Pt == [i \in 1..16 |-> 17 * (i - 1)]
ASSUME AesBlock(Seq16(16), Pt) = <<105, 196, 224, 216, 106, 123, 4, 48, 216, 205, 183, 128, 112, 180, 197, 90>>
ASSUME AesBlock(Seq16(24), Pt) = <<221, 169, 124, 164, 134, 76, 223, 224, 110, 175, 112, 160, 236, 13, 113, 145>>
ASSUME AesBlock(Seq16(32), Pt) = <<142, 162, 183, 202, 81, 103, 69, 191, 234, 252, 73, 144, 75, 73, 96, 137>>
VARIABLES vs, vn, pc, vw, vout, vpos, vsat
vars == <<vs, vn, pc, vw, vout, vpos, vsat>>
Fam == {"128f", "192f", "256f", "em_128f", "em_192f", "em_256f"}
P == PS(vs)
Bytes(seed, k) == TLCEval([i \in 1..k |-> (seed * 37 + i * (101 + 2 * seed) + i * i * 7) % 256])
Key == TLCEval(Bytes(vn, P.lb))
Inp == Bytes(vn + 50, P.pk \div 2)
Init == vs \in Fam /\ vn = 1 /\ pc = "search" /\ vw = <<>> /\ vout = <<>> /\ vpos = 0 /\ vsat = TRUE
Search == /\ pc = "search"
          /\ IF Valid(P, Key, Inp) THEN pc' = "found" /\ vw' = Wit(P, Key, Inp) /\ vout' = Owf(P, Key, Inp) /\ UNCHANGED vn
             ELSE vn' = vn + 1 /\ UNCHANGED <<pc, vw, vout>>
          /\ UNCHANGED <<vs, vpos, vsat>>
Alter == /\ pc = "found" /\ pc' = "altered" /\ UNCHANGED <<vs, vn, vw, vout>>
         /\ \E i \in {0} \union {j \in 1..(P.l \div 8) : j % Step = 1} :
              /\ vpos' = i
              /\ vsat' = Satisfied(P, IF i = 0 THEN vw ELSE [vw EXCEPT ![i] = (@ + 1) % 256], Inp, vout)
Next == Search \/ Alter \/ (pc = "altered" /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars
Circuit_ == vsat = (vpos = 0)
Length == pc # "search" => Len(vw) = P.l \div 8
=============================================================================
