------------------------------- MODULE MCHeap -------------------------------
(***************************************************************************)
(* Signing and verification as takers of resources: their phases, with     *)
(* every point at which a call may end early, by several callers at once.  *)
(* At whatever point each leaves, the heap is as it was.                   *)
(***************************************************************************)
EXTENDS Heap
CONSTANTS Callers, Limit
VARIABLES todo       \* caller -> [rest: phases to come, held: identities]
vars == <<live, calls, todo>>
(* phases: "t" take a block, "c" churn, "g" give the oldest, "x" may end here *)
Plans == [keygen |-> <<"x">>,
          validate |-> <<"x">>,
          sign |-> <<"x", "t", "t", "c", "t", "g", "g", "g">>,          \* trees and matrix; witness
          verify |-> <<"x", "t", "c", "x", "t", "c", "g", "x", "g">>]     \* a repetition may be rejected
Sizes == {1, 2}
NextId == CHOOSE n \in 1..20 : n \notin DOMAIN live /\ \A m \in 1..(n - 1) : m \in DOMAIN live
Start(c) == /\ c \notin DOMAIN todo
            /\ \E k \in DOMAIN Plans : todo' = (c :> [rest |-> Plans[k], held |-> <<>>]) @@ todo
            /\ Begin(c, Limit)
Phase(c) ==
  /\ c \in DOMAIN todo /\ todo[c].rest # <<>>
  /\ LET h == Head(todo[c].rest)  r == Tail(todo[c].rest)  b == todo[c].held IN
     CASE h = "t" -> \E s \in Sizes : Take(c, NextId, s, "heap") /\ todo' = [todo EXCEPT ![c] = [rest |-> r, held |-> Append(b, NextId)]]
       [] h = "c" -> Churn(c, 3, 1, "cipher") /\ todo' = [todo EXCEPT ![c].rest = r]
       [] h = "g" -> Give(c, b[1], "heap") /\ todo' = [todo EXCEPT ![c] = [rest |-> r, held |-> Tail(b)]]
       [] h = "x" -> /\ UNCHANGED heapvars
                     /\ \/ todo' = [todo EXCEPT ![c].rest = r]
                        \/ todo' = [todo EXCEPT ![c].rest = [i \in 1..Len(b) |-> "g"]]     \* leaving early: give all back
Finish(c) == c \in DOMAIN todo /\ todo[c].rest = <<>> /\ todo' = Drop(todo, c) /\ End(c)
Init == HeapInit /\ todo = << >>
Next == \E c \in Callers : Start(c) \/ Phase(c) \/ Finish(c)
Spec == Init /\ [][Next]_vars /\ \A c \in Callers : WF_vars(Phase(c) \/ Finish(c))
Same == DOMAIN todo = DOMAIN calls
(* every call that begins ends, and then nothing of it is left *)
Ends == \A c \in Callers : c \in DOMAIN calls ~> c \notin DOMAIN calls
=============================================================================
