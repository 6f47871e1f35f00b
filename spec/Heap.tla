-------------------------------- MODULE Heap --------------------------------
(***************************************************************************)
(* Resources: blocks of memory and cipher contexts, taken and given back   *)
(* by calls.  A call gives back what it took, exactly once, before it      *)
(* returns, and nothing else; what it holds at a time stays within a limit *)
(* that depends on the parameter set only.                                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

VARIABLES live,    \* identity -> [size, kind, by]
          calls    \* call in progress -> [limit, held]
heapvars == <<live, calls>>
HeapInit == live = << >> /\ calls = << >>
Drop(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]

Begin(c, limit) == c \notin DOMAIN calls /\ calls' = (c :> [limit |-> limit, held |-> 0]) @@ calls /\ UNCHANGED live
Take(c, id, size, kind) ==
  /\ c \in DOMAIN calls /\ id \notin DOMAIN live
  /\ calls[c].held + size <= calls[c].limit
  /\ live' = (id :> [size |-> size, kind |-> kind, by |-> c]) @@ live
  /\ calls' = [calls EXCEPT ![c].held = @ + size]
Give(c, id, kind) ==
  /\ c \in DOMAIN calls /\ id \in DOMAIN live /\ live[id].by = c /\ live[id].kind = kind
  /\ calls' = [calls EXCEPT ![c].held = @ - live[id].size]
  /\ live' = Drop(live, id)
(* n times: take, give back at once *)
Churn(c, n, size, kind) == c \in DOMAIN calls /\ n > 0 /\ calls[c].held + size <= calls[c].limit /\ UNCHANGED heapvars
End(c) == c \in DOMAIN calls /\ (\A id \in DOMAIN live : live[id].by # c) /\ calls' = Drop(calls, c) /\ UNCHANGED live

(* what follows *)
Owned == \A id \in DOMAIN live : live[id].by \in DOMAIN calls
Idle == DOMAIN calls = {} => DOMAIN live = {}
Ledger == \A c \in DOMAIN calls : calls[c].held >= 0 /\ calls[c].held <= calls[c].limit
=============================================================================
