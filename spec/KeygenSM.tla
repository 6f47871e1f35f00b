------------------------------ MODULE KeygenSM ------------------------------
(***************************************************************************)
(* Operations that draw secrets: key generation draws candidates until one *)
(* is usable, randomized signing draws one randomizer.  The environment    *)
(* (random source) answers each draw with ok, fail (nothing delivered) or  *)
(* partial (failure after some bytes).                                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json

CONSTANTS MaxDraws
VARIABLES op, hist, st, sec       \* operation, answers so far, "run" "ok" "failed", where the secret comes from (draw number; 0: nowhere)
kvars == <<op, hist, st, sec>>
Ops == {"keygen", "cs_keypair", "sign", "cs_sign"}
Gen == op \in {"keygen", "cs_keypair"}
Init == op \in Ops /\ hist = <<>> /\ st = "run" /\ sec = 0
Answer(a) ==
  /\ st = "run" /\ Len(hist) < MaxDraws
  /\ hist' = Append(hist, a) /\ UNCHANGED op
  /\ CASE a \in {"fail", "partial"} -> st' = "failed" /\ UNCHANGED sec
       [] a = "valid" -> st' = "ok" /\ sec' = Len(hist')
       [] a = "zero" -> st' = "run" /\ UNCHANGED sec
Next == \E a \in {"valid", "fail", "partial"} \cup (IF Gen THEN {"zero"} ELSE {}) : Answer(a)
Spec == Init /\ [][Next]_kvars

(* success means: the last draw succeeded, no draw failed, and that draw is the secret *)
Sound == st = "ok" => hist[Len(hist)] = "valid" /\ sec = Len(hist) /\ \A i \in 1..(Len(hist) - 1) : hist[i] = "zero"
FailedIsFinal == st = "failed" => hist[Len(hist)] \in {"fail", "partial"} /\ sec = 0
NoStale == st # "ok" => sec = 0
(* every complete behaviour, for the replay *)
Emit == st # "run" => PrintT(<<"SCRIPT", ToJson([op |-> op, hist |-> hist])>>)
=============================================================================
