----------------------------- MODULE TraceHelp -----------------------------
(* Recorded calls of the helper functions against Helpers. *)
EXTENDS Helpers, Json, IOUtils
Trace == TLCEval(ndJsonDeserialize(IOEnv.TRACE))
VARIABLE l
e == Trace[l]
(* e.w: argument word(s), e.r: results *)
Ok ==
  CASE e.op = "parity" -> \A i \in 1..Len(e.r) : e.r[i] = Parity(<<e.w[i]>>)
    [] e.op = "rot" -> \A i \in 1..Len(e.l) : e.l[i] = Rotl8(i - 1, e.c) /\ e.r[i] = Rotr8(i - 1, e.c)
    [] e.op = "clz" -> e.clz = Clz(Hex(e.w)) /\ e.log = CeilLog2(Hex(e.w))
    [] e.op = "sub" -> LET s == Sub(Hex(e.x), Hex(e.y)) IN s.d = Hex(e.d) /\ (e.rc # 0) = s.under
    [] e.op = "order" -> LET w == Hex(e.w) IN Hex(e.be) = (IF e.big THEN w ELSE Swapped(w)) /\ Hex(e.le) = (IF e.big THEN Swapped(w) ELSE w) /\ Hex(e.swap) = Swapped(w)
    [] e.op = "bits" -> LET w == Hex(e.w) IN /\ \A i \in 0..(8 * Len(w) - 1) : e.get[i + 1] = BitAt(w, i)
                                             /\ Hex(e.set) = w
    [] e.op = "bcmp" -> (e.rc = 0) = SameBytes(Hex(e.a), Hex(e.b))
    [] e.op = "xor" -> LET a == Hex(e.a) b == Hex(e.b) IN Hex(e.o) = XorB(a, b) /\ Hex(e.m0) = a /\ Hex(e.m1) = XorB(a, b)
    [] e.op = "bzero" -> Hex(e.o) = Zeros(e.n) /\ ~e.outside
    [] e.op = "clear" -> Hex(e.o) = Zeros(e.n) /\ ~e.outside
    [] e.op = "gone" -> e.left = 0           \* bytes of the secret still in memory after erasure by an optimised caller
    [] e.op = "alloc" ->
         LET al == Hex(e.al) size == Hex(e.size) IN
         /\ e.got => /\ Proper(al, size) /\ e.aligned
                     /\ ~Huge(size) /\ e.inside /\ e.freed = 1 /\ ~e.wrong
         /\ ~e.got => e.live = 0
         /\ Proper(al, size) /\ e.must /\ Bits(size) # {} /\ ~Huge(size) => e.got
Init == l = 1
Next == l <= Len(Trace) /\ "dirty" \notin DOMAIN e /\ Ok /\ l' = l + 1
TSpec == Init /\ [][Next]_l
TView == l
Furthest == TLCSet(1, l)
Accepted == PrintT(<<"CONSUMED", TLCGet(1) - 1, Len(Trace)>>) /\ TLCGet(1) = Len(Trace) + 1
=============================================================================
