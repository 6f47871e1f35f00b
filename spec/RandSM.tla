------------------------------- MODULE RandSM -------------------------------
(***************************************************************************)
(* A request for random bytes against every behaviour of the facility (up  *)
(* to a number of calls); complete behaviours are printed and replayed     *)
(* against each variant of rand_bytes (C24).                               *)
(***************************************************************************)
EXTENDS RandDev, Json
CONSTANTS MaxCalls, MaxLen
VARIABLES fac, len, pc, s, rc, hist
vars == <<fac, len, pc, s, rc, hist>>
Init == /\ fac \in {"urandom", "getrandom", "status", "fill"} /\ len \in 0..MaxLen
        /\ pc = (IF fac = "urandom" THEN "open" ELSE fac) /\ s = Fresh /\ rc = 99 /\ hist = <<>>
Do(c, npc, nrc) ==
  /\ Len(hist) < MaxCalls \/ c.call = "close"
  /\ s' = Apply(s, c) /\ hist' = Append(hist, c) /\ pc' = npc /\ rc' = nrc /\ UNCHANGED <<fac, len>>
C(call, out, n) == [call |-> call, out |-> out, n |-> n, fd |-> 7]
Left == len - s.got
Open == pc = "open" /\ \/ Do(C("open", "ok", 0), "ioctl", rc)
                       \/ Do(C("open", "eintr", 0), "open", rc)
                       \/ Do(C("open", "fail", 0), "done", -1)
Ioctl == pc = "ioctl" /\ \/ Do(C("ioctl", "ok", 0), IF len = 0 THEN "close" ELSE "read", IF len = 0 THEN 0 ELSE rc)
                         \/ Do(C("ioctl", "fail", 0), "close", -1)
Read == pc = "read" /\ \/ \E n \in 1..Left : Do(C("read", "ok", n), IF n = Left THEN "close" ELSE "read", IF n = Left THEN 0 ELSE rc)
                       \/ \E o \in {"eintr", "eagain"} : Do(C("read", o, 0), "read", rc)
                       \/ \E o \in {"eof", "fail"} : Do(C("read", o, 0), "close", -1)
Close == pc = "close" /\ Do(C("close", "ok", 0), "done", rc)
GetRandom == pc = "getrandom" /\ \/ \E n \in 0..len : Do(C("getrandom", "ok", n), "done", IF n = len THEN 0 ELSE -1)
                                 \/ \E o \in {"eintr", "eagain", "fail"} : Do(C("getrandom", o, 0), "done", -1)
Status == pc = "status" /\ (Do(C("status", "ok", len), "done", 0) \/ Do(C("status", "fail", 0), "done", -1))
Fill == pc = "fill" /\ Do(C("fill", "ok", len), "done", 0)
Next == Open \/ Ioctl \/ Read \/ Close \/ GetRandom \/ Status \/ Fill
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
(* a request that returned *)
Contract == pc = "done" => May(fac, s, len, rc)
NeverShort == rc = 0 => s.got = len
NoLeak == pc = "done" => s.fds = {}
FailsWhenCut == pc = "done" /\ (s.fatal \/ s.got < len) => rc # 0
Emit == pc = "done" => PrintT(<<"SCRIPT", ToJson([fac |-> fac, len |-> len, hist |-> hist])>>)
=============================================================================
