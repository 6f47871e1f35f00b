------------------------------- MODULE MCLeak -------------------------------
(***************************************************************************)
(* Why comparing executions decides the question: small programs over a    *)
(* secret of four bits and a public bit.  A program's instructions branch, *)
(* index or compare with public or secret data, or publish a verdict (is   *)
(* the secret the expected one, is it zero).  For every program: executing *)
(* it on the chosen secrets only (none, all, or one bit set, or at most    *)
(* one bit different from the value compared with) shows a dependence      *)
(* exactly if there is one for some pair of secrets; and programs that     *)
(* keep to published data have none.                                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
CONSTANT MaxLen
B == 4
Secrets == [1..B -> {0, 1}]
Ref == [i \in 1..B |-> i % 2]           \* what secrets are compared with
Far(x, y) == Cardinality({i \in 1..B : x[i] # y[i]})
Structured == {x \in Secrets : Far(x, [i \in 1..B |-> 0]) \in {0, 1, B} \/ Far(x, Ref) <= 1}
Instr == {<<"step">>, <<"branch public">>, <<"index">>, <<"zero">>, <<"compare">>}
         \cup {<<"branch", i>> : i \in 1..B} \cup {<<"publish zero">>, <<"publish match">>, <<"use match">>} \cup {<<"pair", i>> : i \in 1..(B - 1)}

VARIABLES prog, pc,          \* a program, run by two secrets in lockstep
          pub, s, t, os, ot  \* public bit, the secrets, what was seen of each
vars == <<prog, pc, pub, s, t, os, ot>>

Prefix(x, y) == CHOOSE n \in 0..B : (\A i \in 1..n : x[i] = y[i]) /\ (n < B => x[n + 1] # y[n + 1])
See(ins, p, x) ==
  CASE ins[1] = "step" -> 0
    [] ins[1] = "branch public" -> p
    [] ins[1] = "index" -> 8 * x[1] + 4 * x[2] + 2 * x[3] + x[4]
    [] ins[1] = "zero" -> IF \A i \in 1..B : x[i] = 0 THEN 1 ELSE 0 
    [] ins[1] = "compare" -> Prefix(x, Ref)               \* stops at the first difference
    [] ins[1] = "branch" -> x[ins[2]]
    [] ins[1] = "pair" -> x[ins[2]] * x[ins[2] + 1]       \* taken only if two bits are set
    [] ins[1] = "use match" -> IF x = Ref THEN 1 ELSE 0
    [] OTHER -> 0
Has(pr, n) == \E i \in 1..Len(pr) : pr[i][1] = n
Trace(pr, p, x) == [i \in 1..Len(pr) |-> See(pr[i], p, x)]
Zero(x) == \A i \in 1..B : x[i] = 0
Agree(pr, x, y) == /\ Has(pr, "publish zero") => (Zero(x) <=> Zero(y))
                   /\ Has(pr, "publish match") => ((x = Ref) <=> (y = Ref))
Independent(pr, S) == \A p \in {0, 1} : \A x, y \in S : Agree(pr, x, y) => Trace(pr, p, x) = Trace(pr, p, y)
Disciplined(pr) ==
  \A i \in 1..Len(pr) :
    CASE pr[i][1] \in {"index", "compare", "branch", "pair"} -> FALSE
      [] pr[i][1] = "zero" -> Has(pr, "publish zero")
      [] pr[i][1] = "use match" -> Has(pr, "publish match")
      [] OTHER -> TRUE
Programs == UNION {[1..n -> Instr] : n \in 1..MaxLen}

Init == /\ prog \in Programs /\ pc = 1 /\ pub \in {0, 1} /\ s \in Structured /\ t \in Structured /\ pub = Len(prog) % 2
        /\ s # t /\ Agree(prog, s, t) /\ os = <<>> /\ ot = <<>>
Step == /\ pc <= Len(prog)
        /\ os' = Append(os, See(prog[pc], pub, s)) /\ ot' = Append(ot, See(prog[pc], pub, t))
        /\ pc' = pc + 1 /\ UNCHANGED <<prog, pub, s, t>>
Next == Step
Spec == Init /\ [][Next]_vars
(* a disciplined program stays in step *)
Lockstep == Disciplined(prog) => os = ot
(* the structured secrets are enough *)
Enough == (pc = 1) => (Independent(prog, Structured) <=> Independent(prog, Secrets))
Sound == (pc = 1) => (Disciplined(prog) => Independent(prog, Secrets))
=============================================================================
