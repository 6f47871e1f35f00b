------------------------------- MODULE MCApi -------------------------------
(***************************************************************************)
(* The ideal library (FaestApi) with an environment that calls it in every *)
(* order: keys from different randomness, different messages and           *)
(* randomizers, wrong arguments, failing randomness, altered signatures.   *)
(* Exhaustively (small constants) for the invariants; in simulation the    *)
(* histories are printed and replayed against the code (C20, C22).         *)
(***************************************************************************)
EXTENDS FaestApi, Json
CONSTANTS Sets, Seeds, Msgs, Rhos, Depth, Record
VARIABLES hist,    \* the calls made
          answer   \* what the last one returned
vars == <<apivars, hist, answer>>
(* values of the ideal world *)
PkOf(s, g) == <<"pk", s, g>>
SkOf(s, g) == <<"sk", s, g>>
SigOf(s, g, m, r) == <<"sig", s, g, m, r>>
Log(c) == /\ Len(hist) < Depth
          /\ hist' = IF Record THEN Append(hist, c) ELSE hist
Init == ApiInit /\ hist = <<>> /\ answer = "none"
Have(s, g) == Known(s, SkOf(s, g))
Keygen(s, g) == Log([op |-> "keygen", set |-> s, k |-> g]) /\ KeyGen(s, g, PkOf(s, g), SkOf(s, g)) /\ answer' = "ok"
SignOk(s, g, m, r, api) ==
  /\ Have(s, g) /\ Log([op |-> "sign", set |-> s, k |-> g, m |-> m, r |-> r, api |-> api])
  /\ Sign(s, SkOf(s, g), m, r, SigOf(s, g, m, r)) /\ answer' = "ok"
VerifyAny(s, g, s2, g2, m, m2, r) ==     \* key g, message m; signature of g2, m2, r
  /\ Have(s, g) /\ <<s2, SkOf(s2, g2), m2, r>> \in DOMAIN memo
  /\ Log([op |-> "verify", set |-> s, k |-> g, m |-> m, s2 |-> s2, k2 |-> g2, m2 |-> m2, r |-> r])
  /\ LET ok == Signed(s, PkOf(s, g), m, SigOf(s2, g2, m2, r)) IN
     Verify(s, PkOf(s, g), m, SigOf(s2, g2, m2, r), ok) /\ answer' = IF ok THEN "accept" ELSE "reject"
Damaged(s, g, m, r, how) ==              \* an altered signature
  /\ <<s, SkOf(s, g), m, r>> \in DOMAIN memo
  /\ Log([op |-> "damaged", set |-> s, k |-> g, m |-> m, r |-> r, how |-> how])
  /\ Verify(s, PkOf(s, g), m, <<"altered", how>>, FALSE) /\ answer' = "reject"
Error(s, g, how) ==                      \* refused calls
  /\ how \in {"nullkey", "nullsig", "small", "short", "cleared", "randfail", "randfail2"} => Have(s, g)
  /\ Log([op |-> "error", set |-> s, k |-> g, how |-> how]) /\ answer' = "error" /\ UNCHANGED apivars
Validate(s, g, s2, g2) ==
  /\ Have(s, g) /\ Have(s2, g2) /\ s = s2
  /\ Log([op |-> "validate", set |-> s, k |-> g, k2 |-> g2])
  /\ answer' = (IF Pair(s, PkOf(s, g), SkOf(s2, g2)) THEN "accept" ELSE "reject") /\ UNCHANGED apivars
Clear(s, g) == Have(s, g) /\ Log([op |-> "clear", set |-> s, k |-> g]) /\ answer' = "ok" /\ UNCHANGED apivars
Hows == {"first", "last", "middle", "length", "random", "zero"}
Errs == {"nullkey", "nullsig", "nulllen", "small", "short", "cleared", "randfail", "randfail2", "keyfail", "keynull", "badkey"}
Next ==
  \/ \E s \in Sets, g \in Seeds : Keygen(s, g) \/ Clear(s, g) \/ \E h \in Errs : Error(s, g, h)
  \/ \E s \in Sets, g \in Seeds, m \in Msgs, r \in Rhos : \/ \E a \in {"signr", "sign", "cs"} : SignOk(s, g, m, r, a)
                                                         \/ \E h \in Hows : Damaged(s, g, m, r, h)
  \/ \E s \in Sets, g \in Seeds, s2 \in Sets, g2 \in Seeds : Validate(s, g, s2, g2)
  \/ \E s \in Sets, g \in Seeds, s2 \in Sets, g2 \in Seeds, m \in Msgs, m2 \in Msgs, r \in Rhos : VerifyAny(s, g, s2, g2, m, m2, r)
Spec == Init /\ [][Next]_vars
(* users: a signature is accepted for one key and one message, the signed ones *)
Unforgeable == [][answer' = "accept" => UNCHANGED apivars]_vars
Durable == [][pairs \subseteq pairs' /\ sigs \subseteq sigs' /\ \A a \in DOMAIN memo : a \in DOMAIN memo' /\ memo'[a] = memo[a]]_vars
View == apivars
Emit == Record /\ Len(hist) = Depth => PrintT(<<"SCRIPT", ToJson(hist)>>)
Room == Len(hist) < Depth \/ ~Record
=============================================================================
