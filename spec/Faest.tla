-------------------------------- MODULE Faest --------------------------------
(***************************************************************************)
(* The FAEST signature scheme (v1) as operators over byte strings: vector  *)
(* commitments, VOLE, universal hashes, the QuickSilver proof of the       *)
(* Rijndael circuit, and the stages of signing and verification.  P is a   *)
(* parameter record (Params); P.toy selects 8-bit primitives with the same *)
(* structure, for exhaustive model checking.                               *)
(***************************************************************************)
EXTENDS Params

----------------------------------------------------------------------------
(* Oracles and seed expansion.                                              *)
Sec(P) == IF P.toy THEN 128 ELSE P.lam
H(P, dom, m, n) == Shake(Sec(P), Append(m, dom), n)
Prg(P, k, iv, n) == IF P.toy THEN Shake(128, k \o iv \o <<255>>, n) ELSE AesCtr(k, iv, n)
Bits(bs) == [i \in 1..8*Len(bs) |-> BitAt(bs, i - 1)]

----------------------------------------------------------------------------
(* Vector commitment.                                                       *)
Children(P, level, iv) ==
  LET ch == TLCEval([j \in 1..Len(level) |-> Prg(P, level[j], iv, 2 * P.lb)])
  IN TLCEval([j \in 1..2*Len(level) |->
        LET c == ch[(j + 1) \div 2] IN IF j % 2 = 1 THEN SubSeq(c, 1, P.lb) ELSE SubSeq(c, P.lb + 1, 2 * P.lb)])
TreeLevels(P, root, iv, depth) ==         \* sequence of depth+1 levels
  FoldLeftDomain(LAMBDA ls, i : Append(ls, Children(P, ls[i], iv)), << <<root>> >>, [i \in 1..depth |-> 0])
LeafOut(P, node, iv) == H(P, 0, node \o iv, 3 * P.lb)
LeafSd(P, o) == SubSeq(o, 1, P.lb)
LeafCom(P, o) == SubSeq(o, P.lb + 1, 3 * P.lb)
VcCommit(P, root, iv, depth) ==
  LET lv == TLCEval(TreeLevels(P, root, iv, depth))
      o == TLCEval([j \in 1..Pow2[depth] |-> LeafOut(P, lv[depth + 1][j], iv)])
      com == TLCEval([j \in 1..Pow2[depth] |-> LeafCom(P, o[j])])
  IN TLCEval([levels |-> lv, sd |-> [j \in 1..Pow2[depth] |-> LeafSd(P, o[j])], com |-> com,
              h |-> H(P, 1, Cat(com), 2 * P.lb)])
(* bits b (little-endian): the hidden leaf is NumRec(b); the walk from the root takes b[depth] first *)
NumRec(b) == FoldLeftDomain(LAMBDA s, i : s + b[i] * Pow2[i - 1], 0, b)
BitDec(n, depth) == [i \in 1..depth |-> (n \div Pow2[i - 1]) % 2]
PathNode(b, i) == NumRec(SubSeq(b, Len(b) - i + 1, Len(b)))    \* index of the path node on level i
Sibling(n) == IF n % 2 = 0 THEN n + 1 ELSE n - 1
VcOpen(P, vc, b) ==
  [pdec |-> [i \in 1..Len(b) |-> vc.levels[i + 1][Sibling(PathNode(b, i)) + 1]],
   com |-> vc.com[NumRec(b) + 1]]
(* all nodes not on the path; path nodes are <<>> *)
VcLeaves(P, iv, pdec, b) ==
  FoldLeftDomain(LAMBDA lv, i :
      LET p == PathNode(b, i)
          ch == TLCEval([j \in 1..Len(lv) |-> IF lv[j] = <<>> THEN <<>> ELSE Prg(P, lv[j], iv, 2 * P.lb)])
      IN TLCEval([j \in 1..2*Len(lv) |->
           IF j = p + 1 THEN <<>> ELSE IF j = Sibling(p) + 1 THEN pdec[i]
           ELSE LET c == ch[(j + 1) \div 2] IN IF j % 2 = 1 THEN SubSeq(c, 1, P.lb) ELSE SubSeq(c, P.lb + 1, 2 * P.lb)]),
    << <<>> >>, b)
VcReconstruct(P, iv, pdec, comj, b) ==
  LET lv == TLCEval(VcLeaves(P, iv, pdec, b))
      o == TLCEval([j \in 1..Len(lv) |-> IF lv[j] = <<>> THEN <<>> ELSE LeafOut(P, lv[j], iv)])
      com == TLCEval([j \in 1..Len(lv) |-> IF lv[j] = <<>> THEN comj ELSE LeafCom(P, o[j])])
  IN TLCEval([sd |-> [j \in 1..Len(lv) |-> IF lv[j] = <<>> THEN <<>> ELSE LeafSd(P, o[j])], com |-> com,
              h |-> H(P, 1, Cat(com), 2 * P.lb)])

----------------------------------------------------------------------------
(* VOLE.                                                                    *)
(* u = xor of all expanded leaves; v_j = xor of those whose index has bit j *)
ConvertToVole(P, iv, sd, n) ==
  LET r == RowXor(TLCEval([j \in 1..Len(sd) |-> IF sd[j] = <<>> THEN Zeros(n) ELSE Prg(P, sd[j], iv, n)]), n)
  IN [u |-> r[1], v |-> SubSeq(r, 2, Len(r))]
ChalDec(P, chal, i) == LET b == ColBase(P, i) IN [j \in 1..Depth(P, i) |-> BitAt(chal, b + j - 1)]
Commit1(P, roots, iv, i) ==
  LET vc == VcCommit(P, At(roots, (i - 1) * P.lb, P.lb), iv, Depth(P, i))
      cv == TLCEval(ConvertToVole(P, iv, vc.sd, P.hb))
  IN [h |-> vc.h, u |-> cv.u, v |-> cv.v, levels |-> vc.levels, com |-> vc.com]
VoleCommit(P, rootkey, iv) ==
  LET roots == Prg(P, rootkey, iv, P.tau * P.lb)
      t == TLCEval([i \in 1..P.tau |-> Commit1(P, roots, iv, i)])
  IN TLCEval([hcom |-> H(P, 1, Cat([i \in 1..P.tau |-> t[i].h]), 2 * P.lb),
      u |-> t[1].u,
      c |-> [i \in 1..(P.tau - 1) |-> XorB(t[1].u, t[i + 1].u)],
      v |-> Cat([i \in 1..P.tau |-> t[i].v]),
      vc |-> [i \in 1..P.tau |-> [levels |-> t[i].levels, com |-> t[i].com]]])
(* q': before the corrections *)
VoleReconstruct(P, iv, chal, pdec, comj) ==
  LET one(i) ==
        LET b == ChalDec(P, chal, i)
            idx == NumRec(b)
            rec == VcReconstruct(P, iv, pdec[i], comj[i], b)
            sd == TLCEval([j \in 1..Pow2[Len(b)] |-> IF j = 1 THEN <<>> ELSE rec.sd[((j - 1) ^^ idx) + 1]])
        IN [h |-> rec.h, q |-> TLCEval(ConvertToVole(P, iv, sd, P.hb).v)]
      t == TLCEval([i \in 1..P.tau |-> one(i)])
  IN TLCEval([hcom |-> H(P, 1, Cat([i \in 1..P.tau |-> t[i].h]), 2 * P.lb),
              q |-> Cat([i \in 1..P.tau |-> t[i].q])])

----------------------------------------------------------------------------
(* Universal hashes.  Field elements are byte strings of length P.lb, or   *)
(* P.tb for the small field, which are zero-extended into the large one.   *)
Ext(P, a) == a \o Zeros(P.lb - Len(a))
Chunks(bs, n) == [i \in 1..(Len(bs) \div n) |-> SubSeq(bs, (i - 1) * n + 1, i * n)]
VoleHash(P, sd, x) ==          \* sd: r0 r1 r2 r3 s t;   x: l + 2 lambda + B bits
  LET k(i) == At(sd, (i - 1) * P.lb, P.lb)
      t == At(sd, 5 * P.lb, P.tb)
      n0 == P.l \div 8 + P.lb
      nblk == CeilDiv(n0, P.lb)
      x0 == SubSeq(x, 1, n0) \o Zeros(nblk * P.lb - n0)
      x1 == SubSeq(x, n0 + 1, n0 + P.lb + P.ub)
      h0 == Horner(P.lb, k(5), Chunks(x0, P.lb))
      h1 == Ext(P, Horner(P.tb, t, Chunks(x0, P.tb)))
      h2 == XorB(GfMul(k(1), h0), GfMul(k(2), h1))
      h3 == XorB(GfMul(k(3), h0), GfMul(k(4), h1))
  IN XorB(h2 \o SubSeq(h3, 1, P.ub), x1)
ZkHash(P, sd, xs, x1) ==       \* sd: r0 r1 s t
  LET k(i) == At(sd, (i - 1) * P.lb, P.lb)
      t == Ext(P, At(sd, 3 * P.lb, P.tb))
  IN XorB(XorB(GfMul(k(1), Horner(P.lb, k(3), xs)), GfMul(k(2), Horner(P.lb, t, xs))), x1)

----------------------------------------------------------------------------
(* QuickSilver.  A value known to the prover as a bit m with tag t, to the *)
(* verifier as key q = t + m*Delta.  One record type serves both: the      *)
(* prover's [m, t], the verifier's [m |-> 0, t |-> q].  env.one is the     *)
(* constant 1 in that representation.                                      *)
Alpha(lam) == CASE lam = 8 -> <<2>>
  [] lam = 128 -> <<13, 206, 96, 85, 172, 232, 63, 161, 28, 154, 151, 169, 85, 133, 61, 5>>
  [] lam = 192 -> <<99, 151, 56, 111, 213, 163, 200, 204, 234, 189, 110, 150, 108, 215, 101, 230, 98, 54, 107, 14, 20, 200, 11, 49>>
  [] lam = 256 -> <<231, 254, 222, 11, 66, 136, 151, 150, 103, 78, 71, 160, 56, 141, 214, 190, 106, 225, 241, 248, 69, 152, 34, 223, 51, 88, 201, 32, 207, 168, 201, 4>>
One(n) == [i \in 1..n |-> IF i = 1 THEN 1 ELSE 0]
AlphaPow == TLCEval([lam \in {8, 128, 192, 256} |->
   FoldLeftDomain(LAMBDA s, i : Append(s, GfMul(s[i], Alpha(lam))), <<TLCEval(One(lam \div 8))>>, [i \in 1..7 |-> 0])])
(* the embedding of GF(2^8) as a table *)
Emb(lam, b) == FoldLeftDomain(LAMBDA s, i : IF BitAt(<<b>>, i - 1) = 1 THEN XorB(s, AlphaPow[lam][i]) ELSE s,
                              TLCEval(Zeros(lam \div 8)), [i \in 1..8 |-> 0])
EmbTable == TLCEval([lam \in {8, 128, 192, 256} |-> TLCEval([b \in 0..255 |-> Emb(lam, b)])])

MAdd(a, b) == [m |-> a.m ^^ b.m, t |-> XorB(a.t, b.t)]
ConstBit(env, b) == IF b = 1 THEN env.one ELSE env.zero
ConstByte(env, x) == [i \in 1..8 |-> ConstBit(env, BitAt(<<x>>, i - 1))]
MByteAdd(a, b) == TLCEval([i \in 1..8 |-> MAdd(a[i], b[i])])
(* inverse of the S-box's affine map, on bits *)
InvAffineBits(env, x) ==
  TLCEval([i \in 1..8 |-> LET y == MAdd(MAdd(x[((i + 6) % 8) + 1], x[((i + 4) % 8) + 1]), x[((i + 1) % 8) + 1])
                          IN IF i \in {1, 3} THEN MAdd(y, env.one) ELSE y])
(* byte -> element of the large field: [m, t] both field elements *)
Combine(P, x) ==
  TLCEval([m |-> EmbTable[P.lam][FoldLeftDomain(LAMBDA s, i : s + x[i].m * Pow2[i - 1], 0, x)],
           t |-> FoldLeftDomain(LAMBDA s, i : XorB(s, GfMul(x[i].t, AlphaPow[P.lam][i])), TLCEval(Zeros(P.lb)), x)])
FAdd(a, b) == [m |-> XorB(a.m, b.m), t |-> XorB(a.t, b.t)]
FMulC(P, c, a) == LET k == EmbTable[P.lam][c] IN [m |-> GfMul(k, a.m), t |-> GfMul(k, a.t)]

(* the circuit: a sequence of pairs <<in, out>> of field elements with in*out = 1 *)
Byte(w, i) == SubSeq(w, 8*i + 1, 8*i + 8)            \* i-th byte (from 0) of a sequence of bits
KeyWires(P, w) ==       \* all bytes of the expanded key, as sequences of 8 wires, from the committed words
  LET total == 4 * (P.R + 1)
      step(s, n) ==
        LET j == P.nwd + n - 1 IN      \* word index
        IF j % P.nwd = 0 \/ (P.nwd > 6 /\ j % P.nwd = 4)
        THEN [k |-> s.k \o [i \in 1..4 |-> Byte(w, s.i + i - 1)], i |-> s.i + 4]
        ELSE [k |-> s.k \o [i \in 1..4 |-> MByteAdd(s.k[4*(j - P.nwd) + i], s.k[4*(j - 1) + i])], i |-> s.i]
  IN TLCEval(FoldLeftDomain(step, [k |-> [i \in 1..(P.lam \div 8) |-> Byte(w, i - 1)], i |-> P.lam \div 8],
                    [i \in 1..(total - P.nwd) |-> 0]).k)
(* S-boxes of the key schedule: one per byte of each substituted word *)
KeyConstraints(P, env, w, k) ==
  LET nsub == P.ske \div 4
      stepw == IF P.nwd = 6 THEN 6 ELSE 4
      one(s, n) ==
        LET j == P.nwd + (s - 1) * stepw       \* the word being computed
            rot == j % P.nwd = 0
            inw == [r \in 1..4 |-> k[4*(j - 1) + (IF rot THEN (r % 4) ELSE r - 1) + 1]]
            new == Byte(w, P.lam \div 8 + 4*(s - 1) + n - 1)
            sb0 == MByteAdd(new, k[4*(j - P.nwd) + n])
            sb == IF rot /\ n = 1 THEN MByteAdd(sb0, ConstByte(env, Rcon[j \div P.nwd])) ELSE sb0
        IN << Combine(P, inw[n]), Combine(P, InvAffineBits(env, sb)) >>
  IN TLCEval([x \in 1..4*nsub |-> one(((x - 1) \div 4) + 1, ((x - 1) % 4) + 1)])
(* S-boxes of one encryption.  x: committed bytes of rounds 1..R-1; k: round key bytes; inb, outb: wires *)
EncConstraints(P, env, x, k, inb, outb) ==
  LET bw == P.nb
      blk == 4 * bw
      kc == TLCEval([i \in 1..Len(k) |-> Combine(P, k[i])])
      xc == TLCEval([i \in 1..Len(x) |-> Combine(P, x[i])])
      mix(j, c) ==     \* column c (from 0) of MixColumns of the state after round j
        LET X(r) == xc[blk*(j - 1) + 4*c + r]
            K(r) == kc[blk*j + 4*c + r]
        IN << FAdd(K(1), FAdd(FMulC(P, 2, X(1)), FAdd(FMulC(P, 3, X(2)), FAdd(X(3), X(4))))),
              FAdd(K(2), FAdd(X(1), FAdd(FMulC(P, 2, X(2)), FAdd(FMulC(P, 3, X(3)), X(4))))),
              FAdd(K(3), FAdd(X(1), FAdd(X(2), FAdd(FMulC(P, 2, X(3)), FMulC(P, 3, X(4)))))),
              FAdd(K(4), FAdd(FMulC(P, 3, X(1)), FAdd(X(2), FAdd(X(3), FMulC(P, 2, X(4)))))) >>
      inof(j, c) == IF j = 0 THEN [r \in 1..4 |-> FAdd(Combine(P, inb[4*c + r]), kc[4*c + r])] ELSE mix(j, c)
      ins == TLCEval([y \in 1..P.R*bw |-> TLCEval(inof((y - 1) \div bw, (y - 1) % bw))])
      out(j, c, r) ==  \* committed S-box output that column c, row r of round j's input goes to (ShiftRows moves left)
        LET cc == (c + bw - ShiftOff(bw)[r]) % bw
            i == 4*cc + r
            s == IF j < P.R - 1 THEN x[blk*j + i] ELSE MByteAdd(outb[i], k[blk*P.R + i])
        IN Combine(P, InvAffineBits(env, s))
  IN TLCEval([y \in 1..blk*P.R |->
       LET j == (y - 1) \div blk  c == ((y - 1) % blk) \div 4  r == ((y - 1) % 4) + 1
       IN << ins[j*bw + c + 1][r], out(j, c, r) >>])
ConstBytes(env, bs) == TLCEval([i \in 1..Len(bs) |-> ConstByte(env, bs[i])])
Circuit(P, env, w, inp, outp) ==
  IF P.toy THEN   \* one S-box: outp = S(key xor inp)
    << << Combine(P, MByteAdd(Byte(w, 0), ConstByte(env, inp[1]))), Combine(P, InvAffineBits(env, ConstByte(env, outp[1]))) >> >>
  ELSE IF P.em THEN
    LET ks == ConstBytes(env, Flat(ExpandKey(inp, P.nwd, P.nb).w))
        blk == 4 * P.nb
        key == TLCEval([i \in 1..blk |-> Byte(w, i - 1)])
        x == TLCEval([i \in 1..(P.lenc \div 8) |-> Byte(w, blk + i - 1)])
        o == TLCEval([i \in 1..blk |-> MByteAdd(key[i], ConstByte(env, outp[i]))])
    IN EncConstraints(P, env, x, ks, key, o)
  ELSE
    LET k == KeyWires(P, w)
        one(b) == LET base == P.lke \div 8 + (b - 1) * (P.lenc \div 8)
                  IN EncConstraints(P, env, TLCEval([i \in 1..(P.lenc \div 8) |-> Byte(w, base + i - 1)]), k,
                                    ConstBytes(env, At(inp, 16*(b - 1), 16)), ConstBytes(env, At(outp, 16*(b - 1), 16)))
    IN KeyConstraints(P, env, w, k) \o one(1) \o (IF P.beta = 2 THEN one(2) ELSE <<>>)

ProverEnv(P) == [one |-> [m |-> 1, t |-> Zeros(P.lb)], zero |-> [m |-> 0, t |-> Zeros(P.lb)]]
VerifierEnv(P, delta) == [one |-> [m |-> 0, t |-> delta], zero |-> [m |-> 0, t |-> Zeros(P.lb)]]
(* v: lambda columns.  Rows 1..l + lambda are used. *)
Rows(P, v) == Transpose(v, P.l + P.lam)
SumPoly(P, rows) == Horner(P.lb, [i \in 1..P.lb |-> IF i = 1 THEN 2 ELSE 0], Reverse(rows))
Prove(P, w, u, v, inp, outp, chall) ==
  LET rows == Rows(P, v)
      wires == TLCEval([i \in 1..P.l |-> [m |-> BitAt(w, i - 1), t |-> rows[i]]])
      cs == Circuit(P, ProverEnv(P), wires, inp, outp)
      a0 == TLCEval([i \in 1..Len(cs) |-> GfMul(cs[i][1].t, cs[i][2].t)])
      a1 == TLCEval([i \in 1..Len(cs) |->
              XorB(XorB(GfMul(XorB(cs[i][1].m, cs[i][1].t), XorB(cs[i][2].m, cs[i][2].t)), One(P.lb)), a0[i])])
  IN [a |-> ZkHash(P, chall, a1, At(u, P.l \div 8, P.lb)),
      b |-> ZkHash(P, chall, a0, SumPoly(P, SubSeq(rows, P.l + 1, P.l + P.lam)))]
(* does the witness satisfy the circuit? *)
Satisfied(P, w, inp, outp) ==
  LET wires == TLCEval([i \in 1..P.l |-> [m |-> BitAt(w, i - 1), t |-> Zeros(P.lb)]])
  IN \E cs \in {Circuit(P, ProverEnv(P), wires, inp, outp)} :
     \A i \in 1..Len(cs) : GfMul(cs[i][1].m, cs[i][2].m) = One(P.lb)
(* q: corrected columns, before adding the witness part d *)
VerifyB(P, d, q, chall, delta, a, inp, outp) ==
  LET n == P.l \div 8
      qd == TLCEval([j \in 1..P.lam |-> IF BitAt(delta, j - 1) = 1
                        THEN XorB(SubSeq(q[j], 1, n), d) \o SubSeq(q[j], n + 1, Len(q[j])) ELSE q[j]])
      rows == Rows(P, qd)
      wires == TLCEval([i \in 1..P.l |-> [m |-> 0, t |-> rows[i]]])
      cs == Circuit(P, VerifierEnv(P, delta), wires, inp, outp)
      dd == GfMul(delta, delta)
      b == TLCEval([i \in 1..Len(cs) |-> XorB(GfMul(cs[i][1].t, cs[i][2].t), dd)])
  IN XorB(ZkHash(P, chall, b, SumPoly(P, SubSeq(rows, P.l + 1, P.l + P.lam))), GfMul(a, delta))

----------------------------------------------------------------------------
(* One-way function.  pk = input || output, sk = input || key.              *)
OwfInOf(P, k) == SubSeq(k, 1, P.pk \div 2)
PkOut(P, pk) == SubSeq(pk, P.pk \div 2 + 1, P.pk)
SkKey(P, sk) == SubSeq(sk, P.pk \div 2 + 1, P.sk)
Owf(P, key, inp) == IF P.toy THEN <<SboxTable[key[1] ^^ inp[1]]>> ELSE OwfOut(P.lam, P.em, key, inp)
Valid(P, key, inp) == IF P.toy THEN key[1] # inp[1] ELSE OwfValid(P.lam, P.em, key, inp)
Wit(P, key, inp) == IF P.toy THEN key ELSE Witness(P.lam, P.em, key, inp)

----------------------------------------------------------------------------
(* Stages of signing and verification.                                      *)
Mu(P, inp, outp, msg) == H(P, 1, inp \o outp \o msg, 2 * P.lb)
RootIv(P, key, mu, rho) == H(P, 3, key \o mu \o rho, P.lb + P.ivb)
Chall1(P, mu, hcom, cs, iv) == H(P, 2, mu \o hcom \o cs \o iv, 5 * P.lb + P.tb)
HV(P, chall1, v) == H(P, 1, Cat(TLCEval([j \in 1..P.lam |-> VoleHash(P, chall1, v[j])])), 2 * P.lb)
Chall2(P, chall1, ut, hv, d) == H(P, 2, chall1 \o ut \o hv \o d, 3 * P.lb + P.tb)
Chall3(P, chall2, a, b) == H(P, 2, chall2 \o a \o b, P.lb)
Opening(P, vc, chall3) ==
  Cat(TLCEval([i \in 1..P.tau |-> LET o == VcOpen(P, vc[i], ChalDec(P, chall3, i)) IN Cat(o.pdec) \o o.com]))

(* verification *)
SigPdec(P, sig, i) == [k \in 1..Depth(P, i) |-> At(sig, OffP(P, i) + (k - 1) * P.lb, P.lb)]
Correct(P, sig, chall3, q) ==     \* q' -> q
  TLCEval([j \in 1..P.lam |->
     LET i == CHOOSE x \in 1..P.tau : ColBase(P, x) < j /\ j <= ColBase(P, x) + Depth(P, x)
     IN IF i > 1 /\ BitAt(chall3, j - 1) = 1 THEN XorB(q[j], At(sig, OffC(P, i - 1), P.hb)) ELSE q[j]])
HVq(P, chall1, q, ut, chall3) ==
  H(P, 1, Cat(TLCEval([j \in 1..P.lam |->
       LET h == VoleHash(P, chall1, q[j]) IN IF BitAt(chall3, j - 1) = 1 THEN XorB(h, ut) ELSE h])), 2 * P.lb)
=============================================================================
