------------------------------ MODULE FaestApi ------------------------------
(***************************************************************************)
(* The ideal signature library, as its users see it: key pairs come from   *)
(* successful key generation, signatures from successful signing; signing  *)
(* is a function of key, message and randomizer, different arguments give  *)
(* different signatures, and verification accepts exactly what was signed. *)
(* Values (keys, messages, signatures) are uninterpreted.                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

VARIABLES pairs,   \* generated pairs [set, seed, pk, sk]; seed: the bytes drawn
          sigs,    \* valid triples [set, pk, msg, sig]
          memo     \* signing so far: <<set, sk, msg, rho>> -> signature
apivars == <<pairs, sigs, memo>>

ApiInit == pairs = {} /\ sigs = {} /\ memo = << >>

Known(s, sk) == \E p \in pairs : p.set = s /\ p.sk = sk
PkFor(s, sk) == (CHOOSE p \in pairs : p.set = s /\ p.sk = sk).pk
KeyGen(s, seed, pk, sk) ==
  /\ \A p \in pairs : p.set = s => ((p.pk = pk) <=> (p.sk = sk)) /\ (p.seed = seed => p.sk = sk)
  /\ pairs' = pairs \cup {[set |-> s, seed |-> seed, pk |-> pk, sk |-> sk]}
  /\ UNCHANGED <<sigs, memo>>
Sign(s, sk, msg, rho, sig) ==
  /\ Known(s, sk)
  /\ LET a == <<s, sk, msg, rho>> IN
     IF a \in DOMAIN memo THEN memo[a] = sig /\ UNCHANGED <<sigs, memo>>
     ELSE /\ \A t \in sigs : t.sig # sig
          /\ memo' = (a :> sig) @@ memo
          /\ sigs' = sigs \cup {[set |-> s, pk |-> PkFor(s, sk), msg |-> msg, sig |-> sig]}
  /\ UNCHANGED pairs
Signed(s, pk, msg, sig) == [set |-> s, pk |-> pk, msg |-> msg, sig |-> sig] \in sigs
(* a query leaves the state alone *)
Verify(s, pk, msg, sig, ok) == ok = Signed(s, pk, msg, sig) /\ UNCHANGED apivars
Pair(s, pk, sk) == \E p \in pairs : p.set = s /\ p.pk = pk /\ p.sk = sk

(* what users rely on *)
OneMessage == \A t, u \in sigs : t.sig = u.sig => t = u
FunctionalKeys == \A p, q \in pairs : p.set = q.set => ((p.pk = q.pk) <=> (p.sk = q.sk)) /\ (p.seed = q.seed => p.sk = q.sk)
Backed == \A t \in sigs : \E a \in DOMAIN memo : memo[a] = t.sig /\ a[1] = t.set /\ a[3] = t.msg /\ PkFor(a[1], a[2]) = t.pk
Injective == \A a, b \in DOMAIN memo : memo[a] = memo[b] => a = b
=============================================================================
