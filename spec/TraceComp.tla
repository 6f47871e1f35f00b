------------------------------ MODULE TraceComp ------------------------------
(***************************************************************************)
(* Checks recorded calls of the implementation's building blocks: every    *)
(* recorded result must be the value of the corresponding operator of the  *)
(* specification at the recorded arguments.  Each line is one step.        *)
(***************************************************************************)
EXTENDS Faest, Json, IOUtils

Trace == TLCEval(ndJsonDeserialize(IOEnv.TRACE))
VARIABLE l
e == Trace[l]
HexLen(s, n) == Len(Hex(s)) = n

LamRec(lam) == [PS("128f") EXCEPT !.lam = lam, !.lb = lam \div 8]
CMap(n) == [i \in 1..n |-> i]
At0(s, i, n) == SubSeq(s, i * n + 1, (i + 1) * n)       \* i-th element (from 0) of n bytes

(* the four oracles: output sizes o1 + o2 *)
OkOracle == LET o == Shake(e.sec, Append(Hex(e.m), e.which), e.l1 + e.l2)
            IN Hex(e.o1) \o Hex(e.o2) = o /\ HexLen(e.o1, e.l1)
OkXof == Hex(e.o) = Shake(e.sec, IF e.prefix >= 0 THEN <<e.prefix>> \o Hex(e.m) ELSE Hex(e.m), e.n)
(* message: pre, then zk * 65536 + zc zero bytes, then suf *)
OkShakeRun == Hex(e.o) = ShakeRun(e.sec, Hex(e.pre), e.zk, e.zc, Hex(e.suf), e.n)
(* prefix of the signing computation on a message or randomizer of zeros between pre and suf: the IV *)
OkSignIvRun ==
  \E P \in {PS(e.set)}, sk \in {Hex(e.sk)} :
  \E key \in {SkKey(P, sk)}, inp \in {OwfInOf(P, sk)} :
  LET ofmu(mu) == RootIv(P, key, mu, Hex(e.rho))
      r == IF e.what = "message"
           THEN RootIv(P, key, ShakeRun(P.lam, Hex(e.pk) \o Hex(e.pre), e.zk, e.zc, Hex(e.suf) \o <<1>>, 2 * P.lb), Hex(e.rho))
           ELSE ShakeRun(P.lam, key \o Mu(P, inp, Owf(P, key, inp), Hex(e.msg)) \o Hex(e.pre), e.zk, e.zc, Hex(e.suf) \o <<3>>, P.lb + P.ivb)
  IN SubSeq(r, P.lb + 1, P.lb + P.ivb) = Hex(e.iv)

OkPrg == Hex(e.o) = (IF e.n = 0 THEN <<>> ELSE AesCtr(Hex(e.key), Hex(e.iv), e.n))
OkIncIv == Hex(e.o) = IncIv(Hex(e.iv))
OkCipher == LET k == Hex(e.key) nb == IF e.which <= 2 THEN 4 ELSE IF e.which = 3 THEN 6 ELSE 8
            IN Hex(e.o) = Flat(Encrypt(k, Len(k) \div 4, nb, Hex(e.in)).st)
OkOwf == /\ Hex(e.o) = OwfOut(e.lam, e.em, Hex(e.key), Hex(e.in))
         /\ (e.rc # 0) = OwfValid(e.lam, e.em, Hex(e.key), Hex(e.in))
OkWitness == Hex(e.o) = Witness(PS(e.set).lam, PS(e.set).em, Hex(e.key), Hex(e.in))

(* vector commitment: the commitment, openings of it, reconstructions (of altered openings, too) *)
OkVc ==
  \E P \in {LamRec(e.lam)}, iv \in {Hex(e.iv)} :
  \E vc \in {VcCommit(P, Hex(e.root), iv, e.depth)} :
  LET open(o) == LET w == VcOpen(P, vc, BitDec(o.idx, e.depth)) IN Cat(w.pdec) = Hex(o.pdec) /\ w.com = Hex(o.com)
      rec(r) == \E pd \in {Hex(r.pdec)}, sd \in {Hex(r.sd)}, cm \in {Hex(r.coms)} :
                \E w \in {VcReconstruct(P, Hex(r.iv), [i \in 1..e.depth |-> At0(pd, i - 1, P.lb)], Hex(r.com), BitDec(r.idx, e.depth))} :
                   /\ w.h = Hex(r.h) /\ cm = Cat(w.com)
                   /\ \A j \in 1..Pow2[e.depth] : w.sd[j] = <<>> \/ w.sd[j] = At0(sd, j - 1, P.lb)
                   \* an honest opening reproduces the commitment, an altered one does not
                   /\ IF r.honest THEN w.h = vc.h /\ (\A j \in 1..Pow2[e.depth] : w.sd[j] = <<>> \/ w.sd[j] = vc.sd[j])
                      ELSE w.h # vc.h
  IN /\ vc.h = Hex(e.h) /\ Cat(vc.com) = Hex(e.com) /\ Cat(vc.sd) = Hex(e.sd)
     /\ Cat([i \in 1..(e.depth + 1) |-> Cat(vc.levels[i])]) = Hex(e.k)
     /\ \A i \in 1..Len(e.opens) : open(e.opens[i])
     /\ \A i \in 1..Len(e.recs) : rec(e.recs[i])
OkBitDec == IF e.i >= Pow2[e.depth] THEN e.rc = -1 ELSE e.rc = 1 /\ Hex(e.o) = BitDec(e.i, e.depth) /\ e.back = e.i

OkChalDec ==
  LET bits == Hex(e.chal)  d == IF e.i < e.t0 THEN e.k0 ELSE e.k1
      b == IF e.i < e.t0 THEN e.i * e.k0 ELSE e.t0 * e.k0 + (e.i - e.t0) * e.k1
  IN IF e.i >= e.t0 + e.t1 THEN e.rc = 0 ELSE e.rc = 1 /\ Hex(e.o) = [j \in 1..d |-> BitAt(bits, b + j - 1)]
OkConvert ==
  \E P \in {LamRec(e.lam)}, sds \in {Hex(e.sd)} :
  \E c \in {ConvertToVole(P, Hex(e.iv), TLCEval([j \in 1..Pow2[e.depth] |-> IF e.bot /\ j = 1 THEN <<>> ELSE At0(sds, j - 1, P.lb)]), e.n)} :
     Hex(e.v) = Cat(c.v) /\ (e.bot \/ Hex(e.u) = c.u)
(* commit, open for a challenge, reconstruct: all three, and the correlation *)
OkVole ==
  \E P \in {[PS(e.set) EXCEPT !.hb = e.n]}, iv \in {Hex(e.iv)}, chal \in {Hex(e.chal)}, qs \in {Hex(e.q)} :
  \E vc \in {VoleCommit(P, Hex(e.root), iv)} :      \* (\E over singletons: TLC evaluates each value once)
  LET op == [i \in 1..P.tau |-> VcOpen(P, vc.vc[i], ChalDec(P, chal, i))]
      col(j) == CHOOSE x \in 1..P.tau : ColBase(P, x) < j /\ j <= ColBase(P, x) + Depth(P, x)
  IN /\ vc.hcom = Hex(e.hcom) /\ vc.u = Hex(e.u) /\ Cat(vc.c) = Hex(e.c) /\ Cat(vc.v) = Hex(e.v)
     /\ Hex(e.open) = Cat([i \in 1..P.tau |-> Cat(op[i].pdec) \o op[i].com])
     /\ Hex(e.hcom2) = vc.hcom
     /\ Len(qs) = P.lam * P.hb
     /\ \A j \in 1..P.lam :
          LET i == col(j)
              ui == IF i = 1 THEN vc.u ELSE XorB(vc.u, vc.c[i - 1])
          IN At0(qs, j - 1, P.hb) = IF BitAt(chal, j - 1) = 1 THEN XorB(vc.v[j], ui) ELSE vc.v[j]
(* reconstruction of arbitrary openings *)
OkVoleRec ==
  \E P \in {[PS(e.set) EXCEPT !.hb = e.n]}, chal \in {Hex(e.chal)}, op \in {Hex(e.open)} :
  LET off == [i \in 1..P.tau |-> OffP(P, i) - OffP(P, 1)] IN
  \E r \in {VoleReconstruct(P, Hex(e.iv), chal,
              [i \in 1..P.tau |-> [k \in 1..Depth(P, i) |-> At(op, off[i] + (k - 1) * P.lb, P.lb)]],
              [i \in 1..P.tau |-> At(op, off[i] + Depth(P, i) * P.lb, 2 * P.lb)])} :
     Hex(e.hcom) = r.hcom /\ Hex(e.q) = Cat(r.q)

OkVoleHash == LET P == [LamRec(e.lam) EXCEPT !.l = e.ell] IN Hex(e.h) = VoleHash(P, Hex(e.sd), Hex(e.x))
OkZkHash == \E P \in {LamRec(e.lam)}, x \in {Hex(e.x)} :
            Hex(e.h) = ZkHash(P, Hex(e.sd), [i \in 1..e.ell |-> At0(x, i - 1, P.lb)], Hex(e.x1))

(* field operations on arrays *)
OkField ==
  \E a \in {Hex(e.a)}, b \in {Hex(e.b)}, c \in {Hex(e.c)} :
  LET L == e.bits \div 8
      P == IF e.bits >= 128 THEN LamRec(e.bits) ELSE [lb |-> L]
      A(i) == At0(a, i - 1, L)
      Bv(i) == At0(b, i - 1, L)
      ok(i) ==
        At0(c, i - 1, L) =
        CASE e.f = "add" -> XorB(A(i), Bv(i))
          [] e.f = "mul" -> GfMul(A(i), Bv(i))
          [] e.f = "mul64" -> GfMul(A(i), At0(b, i - 1, 8) \o Zeros(L - 8))
          [] e.f = "mulbit" -> (IF b[i] % 2 = 1 THEN A(i) ELSE Zeros(L))
          [] e.f = "combbits" -> EmbTable[e.bits][a[i]]
          [] e.f = "comb" -> FoldLeftDomain(LAMBDA s, k : XorB(s, GfMul(At0(a, 8 * (i - 1) + k - 1, L), AlphaPow[e.bits][k])), TLCEval(Zeros(L)), [k \in 1..8 |-> 0])
          [] e.f = "sumpoly" -> SumPoly(P, [k \in 1..e.bits |-> At0(a, e.bits * (i - 1) + k - 1, L)])
          [] e.f = "inv" -> <<Inv8Table[a[i]]>>
          [] e.f = "loadstore" -> A(i)
          [] e.f = "from64" -> At0(a, i - 1, 8) \o Zeros(L - 8)
          [] e.f = "from8" -> <<a[i]>> \o Zeros(L - 1)
          [] e.f = "frombit" -> <<a[i] % 2>> \o Zeros(L - 1)
          [] e.f = "zero" -> Zeros(L)
          [] e.f = "one" -> One(L)
  IN Len(c) = e.n * L /\ \A i \in 1..e.n : ok(i)

(* the proof: the prover's two values, the verifier's, and the relation between them *)
OkProve ==
  \E P \in {PS(e.set)}, v \in {Hex(e.v)} :
  LET cols == TLCEval([j \in 1..P.lam |-> At0(v, j - 1, e.len)])
  IN \E pf \in {Prove(P, Hex(e.w), Hex(e.u), cols, Hex(e.in), Hex(e.out), Hex(e.chall))} :
     Hex(e.a) = pf.a /\ Hex(e.b) = pf.b
OkQs ==
  \E P \in {PS(e.set)}, q \in {Hex(e.q)} :
  LET cols == TLCEval([j \in 1..P.lam |-> At0(q, j - 1, e.len)])
  IN e.rc = 0 /\ Hex(e.b) = VerifyB(P, Hex(e.d), cols, Hex(e.chall), Hex(e.delta), Hex(e.a), Hex(e.in), Hex(e.out))
(* prover and verifier on one VOLE correlation: equal values exactly for satisfying witnesses *)
OkQsRel == LET P == PS(e.set) IN (e.b = e.b2) = Satisfied(P, Hex(e.w), Hex(e.in), Hex(e.out))
(* the same for many changes of one satisfying witness: each changes one byte, so none satisfies (MCRijndael) *)
OkQsSweep == /\ Satisfied(PS(e.set), Hex(e.w), Hex(e.in), Hex(e.out)) /\ e.base
             /\ \A i \in 1..Len(e.changes) : e.changes[i].x \in 1..255 /\ e.changes[i].pos < Len(e.w) \div 2 /\ ~e.changes[i].eq
OkParams ==
  LET P == ParamOf[e.id] IN
  /\ e.v = <<P.lam, P.nwd, P.ske, P.R, P.senc, P.l, IF P.em THEN 0 ELSE P.lke, IF P.em THEN P.l ELSE P.lenc, P.tau, P.k0, P.k1, P.t0, P.t1, P.sig, P.pk, e.id>>
  /\ e.name = Names[e.id] /\ Consistent(P)
OkSizes == LET P == PS(e.set) IN e.pk = P.pk /\ e.sk = P.sk /\ e.sig = P.sig /\ e.cspk = P.pk /\ e.cssk = P.sk /\ e.csbytes = P.sig
(* identifiers outside 1..12 *)
OkNoParams == e.zero = 1 /\ e.name = IF e.id = 0 THEN "PARAMETER_SET_INVALID" ELSE "PARAMETER_SET_MAX_INDEX"

Ok == CASE e.op = "oracle" -> OkOracle [] e.op = "xof" -> OkXof [] e.op = "shakerun" -> OkShakeRun [] e.op = "signivrun" -> OkSignIvRun
        [] e.op = "prg" -> OkPrg [] e.op = "inciv" -> OkIncIv [] e.op = "cipher" -> OkCipher
        [] e.op = "owf" -> OkOwf [] e.op = "witness" -> OkWitness
        [] e.op = "vc" -> OkVc [] e.op = "bitdec" -> OkBitDec
        [] e.op = "chaldec" -> OkChalDec [] e.op = "convert" -> OkConvert [] e.op = "vole" -> OkVole [] e.op = "volerec" -> OkVoleRec
        [] e.op = "volehash" -> OkVoleHash [] e.op = "zkhash" -> OkZkHash
        [] e.op = "field" -> OkField
        [] e.op = "prove" -> OkProve [] e.op = "qs" -> OkQs [] e.op = "qsrel" -> OkQsRel [] e.op = "qssweep" -> OkQsSweep
        [] e.op = "params" -> OkParams [] e.op = "sizes" -> OkSizes [] e.op = "noparams" -> OkNoParams
(* the harness's canaries around outputs and copies of the inputs were intact *)
Clean == "dirty" \notin DOMAIN e

TInit == l = 1
TNext == l <= Len(Trace) /\ Clean /\ Ok /\ l' = l + 1
TSpec == TInit /\ [][TNext]_l
Furthest == TLCSet(1, l)
Accepted == PrintT(<<"CONSUMED", TLCGet(1) - 1, Len(Trace)>>) /\ TLCGet(1) = Len(Trace) + 1
=============================================================================
