------------------------------- MODULE Builds -------------------------------
(***************************************************************************)
(* Builds of the library: every call, whichever build carries it out, has  *)
(* the result it has everywhere.                                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

(* what can be chosen, each with its alternatives *)
Choices == [cipher |-> {"external", "own"}, keccak |-> {"opt64", "plain32", "avx2"}, lanes |-> {"four", "one"},
            fields |-> {"vector", "scalar"}, compiler |-> {"gcc", "clang"}, opt |-> {"O0", "O2", "O3", "Os"}, asserts |-> {"on", "off"}]
VARIABLES builds,    \* name -> choices
          memo       \* call -> result
buildvars == <<builds, memo>>
BuildsInit == builds = << >> /\ memo = << >>
Declare(b, ch) == /\ DOMAIN ch = DOMAIN Choices /\ \A x \in DOMAIN ch : ch[x] \in Choices[x]
                  /\ (b \in DOMAIN builds => builds[b] = ch)
                  /\ builds' = (b :> ch) @@ builds /\ UNCHANGED memo
Call(b, c, r) == /\ b \in DOMAIN builds
                 /\ (c \in DOMAIN memo => memo[c] = r)
                 /\ memo' = IF c \in DOMAIN memo THEN memo ELSE (c :> r) @@ memo
                 /\ UNCHANGED builds
=============================================================================
