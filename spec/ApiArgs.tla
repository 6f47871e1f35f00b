------------------------------ MODULE ApiArgs ------------------------------
(***************************************************************************)
(* The argument contract of the public functions.  A call is a choice for  *)
(* every argument; Verdict says what the contract demands.  TLC enumerates *)
(* all calls; each is replayed against the code.                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

VARIABLE call
Ptr == {"null", "given"}
Caps == {"0", "1", "half", "short", "exact", "more", "huge"}
Lens == {"0", "1", "half", "short", "exact", "long", "wrap32", "wrap16", "max"}
MsgK == {"null0", "empty", "some"}
Rho == {"null0", "nulln", "empty", "some"}
Calls ==
  [fn : {"keygen"}, pk : Ptr, sk : Ptr] \cup
  [fn : {"validate"}, pk : Ptr, sk : Ptr] \cup
  [fn : {"sign"}, sk : Ptr, msg : MsgK, sig : Ptr, siglen : Ptr, cap : Caps] \cup
  [fn : {"signr"}, sk : Ptr, msg : MsgK, rho : Rho, sig : Ptr, siglen : Ptr, cap : Caps] \cup
  [fn : {"verify"}, pk : Ptr, msg : MsgK, sig : Ptr, len : Lens]
SmallCap(c) == c \in {"0", "1", "half", "short"}
Error(c) ==
  CASE c.fn \in {"keygen", "validate"} -> c.pk = "null" \/ c.sk = "null"
    [] c.fn = "sign" -> c.sk = "null" \/ c.sig = "null" \/ c.siglen = "null" \/ SmallCap(c.cap)
    [] c.fn = "signr" -> c.sk = "null" \/ c.sig = "null" \/ c.siglen = "null" \/ SmallCap(c.cap) \/ c.rho = "nulln"
    [] c.fn = "verify" -> c.pk = "null" \/ c.sig = "null" \/ c.len # "exact"
Init == call \in Calls
Next == FALSE /\ UNCHANGED call
Spec == Init /\ [][Next]_call
Emit == PrintT(<<"SCRIPT", ToJson([call |-> call, error |-> Error(call)])>>)
(* an accepted call has all it needs *)
Sane == ~Error(call) => \A k \in DOMAIN call : k \in {"msg", "rho"} \/ call[k] # "null"
=============================================================================
