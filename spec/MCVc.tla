-------------------------------- MODULE MCVc --------------------------------
(***************************************************************************)
(* Secrecy and completeness of a vector-commitment opening, symbolically:  *)
(* a node of the tree is <<level, position>>, and all a verifier can do is *)
(* expand a node it knows into its two children.  From the opening for any *)
(* index it must get every leaf except the hidden one, and never a node on *)
(* the path to the hidden leaf.                                            *)
(***************************************************************************)
EXTENDS Faest

CONSTANT MaxDepth
VARIABLES depth, idx, known, done
vars == <<depth, idx, known, done>>

B == BitDec(idx, depth)
Path == {<<i, PathNode(B, i)>> : i \in 0..depth}
Opening0 == {<<i, Sibling(PathNode(B, i))>> : i \in 1..depth}
Init == /\ depth \in 1..MaxDepth /\ idx \in 0..(Pow2[depth] - 1)
        /\ known = Opening0 /\ done = FALSE
Kids(n) == {<<n[1] + 1, 2 * n[2]>>, <<n[1] + 1, 2 * n[2] + 1>>}
Expand == LET new == UNION {Kids(n) : n \in {k \in known : k[1] < depth}} IN
          /\ ~done /\ known' = known \union new /\ done' = (new \subseteq known) /\ UNCHANGED <<depth, idx>>
Next == Expand \/ (done /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars
Hidden == known \cap Path = {}
Complete == done => {n \in known : n[1] = depth} = {<<depth, j>> : j \in (0..(Pow2[depth] - 1)) \ {idx}}
OneSeedPerLevel == Cardinality(Opening0) = depth
RoundTrip == NumRec(B) = idx /\ <<depth, PathNode(B, depth)>> = <<depth, idx>>
=============================================================================
