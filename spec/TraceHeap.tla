------------------------------ MODULE TraceHeap -----------------------------
(* Recorded calls, with what they took and gave back, against Heap. *)
EXTENDS Heap, Params, Json, IOUtils
Trace == TLCEval(ndJsonDeserialize(IOEnv.TRACE))
VARIABLE l
e == Trace[l]
(* generous: four times the trees, matrices and proof polynomials of the set, and a megabyte *)
Tree(P, d) == (2 * Pow2[d] + 3 * Pow2[d]) * P.lb + 2 * P.lb
LimitOf(P) == 4 * (P.t0 * Tree(P, P.k0) + P.t1 * Tree(P, P.k1) + 3 * P.lam * P.hb + 8 * (P.l + P.lam) * P.lb + 2 * P.lb * Pow2[P.k0]) + 1048576
(* the allocator's own caches fill up during the first ten *)
Grows(h) == \A i \in 10..Len(h) : h[i] > h[i - 1]
TBegin == e.op = "begin" /\ Begin(e.c, LimitOf(PS(e.set)))
TTake == e.op = "take" /\ Take(e.c, e.id, e.size, e.kind)
TGive == e.op = "give" /\ Give(e.c, e.id, e.kind)
TChurn == e.op = "churn" /\ Churn(e.c, e.n, e.size, e.kind)
(* repeating the call does not make the process grow each time; no descriptor stays open *)
TEnd == e.op = "end" /\ End(e.c) /\ e.fds = 0 /\ (Len(e.after) >= 14 => ~Grows(e.after))
TInit == HeapInit /\ l = 1
TNext == l <= Len(Trace) /\ l' = l + 1 /\ (TBegin \/ TTake \/ TGive \/ TChurn \/ TEnd)
TSpec == TInit /\ [][TNext]_<<heapvars, l>>
TView == l
Furthest == TLCSet(1, l)
Accepted == PrintT(<<"CONSUMED", TLCGet(1) - 1, Len(Trace)>>) /\ TLCGet(1) = Len(Trace) + 1
=============================================================================
