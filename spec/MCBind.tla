------------------------------- MODULE MCBind -------------------------------
(***************************************************************************)
(* Symbolic model of what binds a signature: a hash value is the honest   *)
(* one (0) only if all its arguments are, and so are the algebraic values. *)
(* Whatever components an adversary replaces, verification accepts only    *)
(* the honest signature of the honest message under the honest key.        *)
(* Drop leaves a component out of the hash that covers it.                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC
CONSTANT Drop
Comp == {"msg", "pk", "c", "ut", "d", "a", "pdec", "com", "ch3", "iv"}
VARIABLES s, done
In(c, v) == IF Drop = c THEN 0 ELSE v
(* symbolic verification; 0 stands for the honest value of a term *)
T(xs) == IF \A i \in 1..Len(xs) : xs[i] = 0 THEN 0 ELSE 1
Mu(t) == T(<<In("pk", t["pk"]), In("msg", t["msg"])>>)
HCom(t) == T(<<In("pdec", t["pdec"]), In("com", t["com"]), In("iv", t["iv"]), t["ch3"]>>)
Q(t) == T(<<t["pdec"], t["iv"], t["ch3"], t["c"]>>)      \* reconstructed and corrected columns
Ch1(t) == T(<<Mu(t), HCom(t), In("c", t["c"]), In("iv", t["iv"])>>)
HV(t) == T(<<Ch1(t), Q(t), In("ut", t["ut"]), t["ch3"]>>)
Ch2(t) == T(<<Ch1(t), In("ut", t["ut"]), HV(t), In("d", t["d"])>>)
B(t) == T(<<Q(t), t["d"], Ch2(t), t["ch3"], t["a"], t["pk"]>>)
Ch3(t) == T(<<Ch2(t), In("a", t["a"]), B(t)>>)
Accept(t) == t["ch3"] = 0 /\ Ch3(t) = 0
Init == s = [c \in Comp |-> 0] /\ done = FALSE
Edit(c) == ~done /\ s[c] = 0 /\ s' = [s EXCEPT ![c] = 1] /\ UNCHANGED done
Check == ~done /\ done' = TRUE /\ UNCHANGED s
Next == Check \/ \E c \in Comp : Edit(c)
Spec == Init /\ [][Next]_<<s, done>>
Binding == Accept(s) => \A c \in Comp : s[c] = 0
=============================================================================
