-------------------------------- MODULE Conc --------------------------------
(***************************************************************************)
(* Calls by several threads.  A call is a sequence of steps, which may be  *)
(* suspended between any two; what it returns is what it returns alone.    *)
(* Memory a call writes is its own (its stack, the blocks it takes, its    *)
(* output buffers); of memory others can see it writes none, unless the    *)
(* access is synchronised.                                                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

VARIABLES alone,     \* job -> what it returns alone
          running    \* thread -> job
concvars == <<alone, running>>
ConcInit == alone = << >> /\ running = << >>
Without(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]

Alone(j, out) == (j \in DOMAIN alone => alone[j] = out) /\ alone' = (j :> out) @@ alone /\ UNCHANGED running
Start(t, j) == t \notin DOMAIN running /\ j \in DOMAIN alone /\ running' = (t :> j) @@ running /\ UNCHANGED alone
Run(t) == t \in DOMAIN running /\ UNCHANGED concvars
Access(t, write, synced) == t \in DOMAIN running /\ (write => synced) /\ UNCHANGED concvars
Finish(t, out) == t \in DOMAIN running /\ out = alone[running[t]] /\ running' = Without(running, t) /\ UNCHANGED alone
=============================================================================
