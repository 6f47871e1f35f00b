------------------------------ MODULE MCBuilds ------------------------------
(***************************************************************************)
(* Which builds have to be compared?  Calls use some of the parts that a   *)
(* choice selects; one alternative of one choice, or one alternative in    *)
(* the company of another, may deviate.  Comparing the builds of Tested on *)
(* calls that use every part exposes every deviating alternative; and if   *)
(* none deviates all combinations agree, tested or not.                    *)
(***************************************************************************)
EXTENDS Builds
B(c, k, l, f, g, o, a) == [cipher |-> c, keccak |-> k, lanes |-> l, fields |-> f, compiler |-> g, opt |-> o, asserts |-> a]
Tested == [default  |-> B("external", "opt64", "four", "vector", "gcc", "O2", "on"),
           own      |-> B("own", "opt64", "four", "vector", "gcc", "O3", "on"),
           portable |-> B("external", "plain32", "four", "vector", "gcc", "O2", "on"),
           avx2     |-> B("external", "avx2", "four", "vector", "gcc", "O2", "on"),
           nox4     |-> B("external", "opt64", "one", "vector", "gcc", "O2", "on"),
           scalar   |-> B("external", "opt64", "four", "scalar", "gcc", "O2", "on"),
           scalarp  |-> B("own", "plain32", "one", "scalar", "gcc", "O2", "on"),
           clang    |-> B("external", "opt64", "four", "vector", "clang", "O2", "on"),
           clangown |-> B("own", "plain32", "four", "vector", "clang", "O3", "on"),
           o0       |-> B("own", "opt64", "four", "vector", "gcc", "O0", "on"),
           ndebug   |-> B("external", "opt64", "four", "vector", "gcc", "O3", "off"),
           os       |-> B("external", "plain32", "one", "scalar", "clang", "Os", "off"),
           native   |-> B("external", "avx2", "four", "scalar", "clang", "O3", "on")]
All == [cipher : Choices.cipher, keccak : Choices.keccak, lanes : Choices.lanes, fields : Choices.fields,
        compiler : Choices.compiler, opt : Choices.opt, asserts : Choices.asserts]
Calls == {"hash", "expand", "multiply", "sign"}
Uses == [hash |-> {"keccak", "lanes", "compiler", "opt", "asserts"}, expand |-> {"cipher", "compiler", "opt", "asserts"},
         multiply |-> {"fields", "compiler", "opt", "asserts"}, sign |-> DOMAIN Choices]
VARIABLES dev        \* the deviation: a set of <<choice, alternative>> that deviates when all of it is there; {}: none
vars == <<builds, memo, dev>>
Alts == UNION {{<<x, a>> : a \in Choices[x]} : x \in DOMAIN Choices}
Result(b, c) == IF dev # {} /\ \A p \in dev : p[1] \in Uses[c] /\ b[p[1]] = p[2] THEN "odd" ELSE "same"
Init == builds = Tested /\ memo = << >> /\ dev \in {{}} \cup {{p} : p \in Alts}
Next == \E b \in DOMAIN Tested, c \in Calls : c \notin DOMAIN memo /\ Call(b, c, Result(Tested[b], c)) /\ UNCHANGED dev
Spec == Init /\ [][Next]_vars
Exposed == \E c \in Calls : \E a, b \in DOMAIN Tested : Result(Tested[a], c) # Result(Tested[b], c)
(* whatever was seen first: one deviation is noticed by some tested build on some call, none is noticed where there is none *)
Noticed == (\A c \in Calls : c \in DOMAIN memo) => ((dev # {}) <=> \E b \in DOMAIN Tested, c \in Calls : ~ENABLED Call(b, c, Result(Tested[b], c)))
Found == dev # {} <=> Exposed
AllAgree == (dev = {} => \A a, b \in All, c \in Calls : Result(a, c) = Result(b, c))
Covered == \A x \in DOMAIN Choices : {Tested[b][x] : b \in DOMAIN Tested} = Choices[x]
=============================================================================
