------------------------------- MODULE MCDrbg -------------------------------
(***************************************************************************)
(* The generator's use of its block cipher, with an uninterpreted cipher:  *)
(* which (key, counter) pairs feed which output bytes.  No pair is used    *)
(* twice, none is skipped, and outputs are determined by the requests.     *)
(* Request sequences are printed for the replay (C23).                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Depth, Mod
Lens == {0, 1, 15, 16, 17, 31, 32, 33, 48, 100}
VARIABLES epoch, v, used, served, reqs
vars == <<epoch, v, used, served, reqs>>
Init == epoch = 0 /\ v \in {0, Mod - 2} /\ used = {} /\ served = <<>> /\ reqs = <<>>
Blocks(n) == (n + 15) \div 16
Ctr(k) == (v + k) % Mod
Request(n) ==
  /\ Len(reqs) < Depth
  /\ reqs' = Append(reqs, n)
  /\ served' = served \o [i \in 1..n |-> <<epoch, Ctr(((i - 1) \div 16) + 1), (i - 1) % 16>>]
  /\ used' = used \cup {<<epoch, Ctr(k)>> : k \in 1..(Blocks(n) + 3)}
  /\ v' = 0 /\ epoch' = epoch + 1                  \* new key and counter come from the last three blocks
Next == \E n \in Lens : Request(n)
Spec == Init /\ [][Next]_vars
(* no generator block serves two places, and the blocks of a request are consecutive *)
NoRepeat == \A i, j \in 1..Len(served) : served[i] = served[j] => i = j
AllUsed == \A e \in 0..(epoch - 1) : Cardinality({u \in used : u[1] = e}) = Blocks(reqs[e + 1]) + 3
Complete == Len(served) = LET RECURSIVE Sum(_) Sum(i) == IF i = 0 THEN 0 ELSE reqs[i] + Sum(i - 1) IN Sum(Len(reqs))
Emit == Len(reqs) = Depth /\ v = 0 => PrintT(<<"SCRIPT", ToJson(reqs)>>)
=============================================================================
