------------------------------- MODULE MCVole -------------------------------
(***************************************************************************)
(* The VOLE correlation on the toy instance, for every challenge and       *)
(* several numbers of repetitions: commit, open, reconstruct.              *)
(***************************************************************************)
EXTENDS Toy
CONSTANTS Taus, Roots
VARIABLES tau, root, vole, chal, rec, pc
vars == <<tau, root, vole, chal, rec, pc>>
P == ToyP(tau)
iv == <<root % 7, 255>>
Init == tau \in Taus /\ root \in Roots /\ vole = <<>> /\ chal = <<>> /\ rec = <<>> /\ pc = "commit"
Commit == pc = "commit" /\ pc' = "challenge" /\ vole' = VoleCommit(P, <<root>>, iv) /\ UNCHANGED <<tau, root, chal, rec>>
Challenge == pc = "challenge" /\ pc' = "open" /\ (\E c \in 0..255 : chal' = <<c>>) /\ UNCHANGED <<tau, root, vole, rec>>
Open == /\ pc = "open" /\ pc' = "done" /\ UNCHANGED <<tau, root, vole, chal>>
        /\ LET op == [i \in 1..tau |-> VcOpen(P, vole.vc[i], ChalDec(P, chal, i))]
           IN rec' = VoleReconstruct(P, iv, chal, [i \in 1..tau |-> op[i].pdec], [i \in 1..tau |-> op[i].com])
Next == Commit \/ Challenge \/ Open \/ (pc = "done" /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars
Col(j) == CHOOSE x \in 1..tau : ColBase(P, x) < j /\ j <= ColBase(P, x) + Depth(P, x)
Correlation == pc = "done" =>
  /\ rec.hcom = vole.hcom
  /\ \A j \in 1..8 : LET i == Col(j)
                         ui == IF i = 1 THEN vole.u ELSE XorB(vole.u, vole.c[i - 1])
                         q == IF i > 1 /\ BitAt(chal, j - 1) = 1 THEN XorB(rec.q[j], vole.c[i - 1]) ELSE rec.q[j]
                     IN /\ rec.q[j] = (IF BitAt(chal, j - 1) = 1 THEN XorB(vole.v[j], ui) ELSE vole.v[j])
                        \* after the correction every column has the same u
                        /\ q = (IF BitAt(chal, j - 1) = 1 THEN XorB(vole.v[j], vole.u) ELSE vole.v[j])
(* the challenge bits are split without loss, overlap or reordering *)
Split == pc = "open" => Cat([i \in 1..tau |-> ChalDec(P, chal, i)]) = Bits(chal)
=============================================================================
