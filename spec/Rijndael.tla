------------------------------ MODULE Rijndael ------------------------------
(***************************************************************************)
(* Rijndael with nk key words and nb block words (4, 6 or 8): AES-128/192/ *)
(* 256 are nb = 4; the Even-Mansour variants use nb = nk.  Also AES        *)
(* counter mode, the FAEST one-way functions, their extended witness, and  *)
(* the position of zero S-box inputs.                                      *)
(***************************************************************************)
EXTENDS PrimDef

SB(x) == SboxTable[x]
Rounds(nk, nb) == IF nk = 8 \/ nb = 8 THEN 14 ELSE IF nk = 6 \/ nb = 6 THEN 12 ELSE 10
XorW(a, b) == <<a[1] ^^ b[1], a[2] ^^ b[2], a[3] ^^ b[3], a[4] ^^ b[4]>>
SubW(w) == <<SB(w[1]), SB(w[2]), SB(w[3]), SB(w[4])>>
RotW(w) == <<w[2], w[3], w[4], w[1]>>
HasZero(w) == \E i \in 1..4 : w[i] = 0
Words(bs) == TLCEval([i \in 1..(Len(bs) \div 4) |-> <<bs[4*i-3], bs[4*i-2], bs[4*i-1], bs[4*i]>>])
Flat(ws) == TLCEval([i \in 1..4*Len(ws) |-> ws[((i-1) \div 4) + 1][((i-1) % 4) + 1]])
Rcon == TLCEval(FoldLeftDomain(LAMBDA s, k : Append(s, XTime(s[k])), <<1>>, [i \in 1..29 |-> 0]))

(* key expansion: words, and the S-box input words used on the way *)
ExpandKey(key, nk, nb) ==
  LET total == nb * (Rounds(nk, nb) + 1)
      step(s, k) ==
        LET i == nk + k - 1                 \* index of the new word, from 0
            prev == s.w[i]
            rot == i % nk = 0
            sub == rot \/ (nk > 6 /\ i % nk = 4)
            inp == IF rot THEN RotW(prev) ELSE prev
            t == IF rot THEN XorW(SubW(inp), <<Rcon[i \div nk], 0, 0, 0>>)
                 ELSE IF sub THEN SubW(inp) ELSE prev
        IN [w |-> Append(s.w, XorW(s.w[i - nk + 1], t)),
            sin |-> IF sub THEN Append(s.sin, inp) ELSE s.sin]
  IN TLCEval(FoldLeftDomain(step, [w |-> Words(key), sin |-> <<>>], [i \in 1..(total - nk) |-> 0]))

ShiftOff(nb) == IF nb = 8 THEN <<0, 1, 3, 4>> ELSE <<0, 1, 2, 3>>
ShiftRows(st, nb) == [c \in 1..nb |-> [r \in 1..4 |-> st[((c - 1 + ShiftOff(nb)[r]) % nb) + 1][r]]]
X2(a) == XTime(a)
X3(a) == XTime(a) ^^ a
MixCol(c) == << X2(c[1]) ^^ (X3(c[2]) ^^ (c[3] ^^ c[4])), c[1] ^^ (X2(c[2]) ^^ (X3(c[3]) ^^ c[4])),
                c[1] ^^ (c[2] ^^ (X2(c[3]) ^^ X3(c[4]))), X3(c[1]) ^^ (c[2] ^^ (c[3] ^^ X2(c[4]))) >>
AddKey(st, w, r, nb) == [c \in 1..nb |-> XorW(st[c], w[r*nb + c])]

(* encryption with expanded key w: output, states after ShiftRows of each  *)
(* round but the last (the committed states), and all S-box input states   *)
EncryptW(w, nr, nb, blk) ==
  LET step(s, r) ==
        LET sb == TLCEval([c \in 1..nb |-> SubW(s.st[c])])
            sr == TLCEval(ShiftRows(sb, nb))
            mc == IF r < nr THEN TLCEval([c \in 1..nb |-> MixCol(sr[c])]) ELSE sr
        IN [st |-> TLCEval(AddKey(mc, w, r, nb)),
            com |-> IF r < nr THEN Append(s.com, sr) ELSE s.com,
            sin |-> Append(s.sin, s.st)]
  IN FoldLeftDomain(step, [st |-> TLCEval(AddKey(Words(blk), w, 0, nb)), com |-> <<>>, sin |-> <<>>], [i \in 1..nr |-> 0])
Encrypt(key, nk, nb, blk) == EncryptW(ExpandKey(key, nk, nb).w, Rounds(nk, nb), nb, blk)
AesBlock(key, blk) == Flat(Encrypt(key, Len(key) \div 4, 4, blk).st)

(* 128-bit big-endian counter *)
IncIv(iv) == LET ff == [i \in 1..16 |-> \A j \in (i+1)..16 : iv[j] = 255]
             IN [i \in 1..16 |-> IF ff[i] THEN (iv[i] + 1) % 256 ELSE iv[i]]
AesCtrDef(key, iv, n) ==
  LET w == ExpandKey(key, Len(key) \div 4, 4).w
      nr == Rounds(Len(key) \div 4, 4)
      step(s, k) == [iv |-> TLCEval(IncIv(s.iv)), o |-> s.o \o Flat(EncryptW(w, nr, 4, s.iv).st)]
  IN IF n = 0 THEN <<>>
     ELSE SubSeq(FoldLeftDomain(step, [iv |-> iv, o |-> <<>>], [i \in 1..((n + 15) \div 16) |-> 0]).o, 1, n)

----------------------------------------------------------------------------
(* One-way functions.  lam in {128,192,256}; em: Even-Mansour.             *)
Nk(lam) == lam \div 32
Nb(lam, em) == IF em THEN lam \div 32 ELSE 4
Beta(lam, em) == IF em \/ lam = 128 THEN 1 ELSE 2
BlockLen(lam, em) == 4 * Nb(lam, em)
OwfLen(lam, em) == Beta(lam, em) * BlockLen(lam, em)

(* The whole evaluation: expanded cipher key, each block's encryption.     *)
OwfEval(lam, em, key, inp) ==
  LET nb == Nb(lam, em)
      ks == ExpandKey(IF em THEN inp ELSE key, Nk(lam), nb)
      nr == Rounds(Nk(lam), nb)
      blk(b) == IF em THEN key ELSE SubSeq(inp, 16*(b-1) + 1, 16*b)
  IN TLCEval([ks |-> ks, enc |-> TLCEval([b \in 1..Beta(lam, em) |-> TLCEval(EncryptW(ks.w, nr, nb, blk(b)))])])
OwfOut(lam, em, key, inp) ==
  LET e == OwfEval(lam, em, key, inp)
      o == FoldLeftDomain(LAMBDA s, b : s \o Flat(e.enc[b].st), <<>>, e.enc)
  IN IF em THEN TLCEval(XorBDef(o, key)) ELSE o
(* S-box inputs that the proof is about: key schedule words (not for EM,   *)
(* where the schedule is public) and every state byte of every round       *)
KsZero(e, em) == ~em /\ \E i \in 1..Len(e.ks.sin) : HasZero(e.ks.sin[i])
EncZero(e) == \E b \in 1..Len(e.enc) : \E r \in 1..Len(e.enc[b].sin) :
                 \E c \in 1..Len(e.enc[b].sin[r]) : HasZero(e.enc[b].sin[r][c])
OwfValid(lam, em, key, inp) == LET e == OwfEval(lam, em, key, inp) IN ~KsZero(e, em) /\ ~EncZero(e)

(* Extended witness: key schedule part then committed states of each block *)
Witness(lam, em, key, inp) ==
  LET e == OwfEval(lam, em, key, inp)
      nk == Nk(lam)
      ske == Len(e.ks.sin)
      kw == IF em THEN key
            ELSE SubSeq(key, 1, 4*nk) \o
                 Flat([j \in 1..ske |-> e.ks.w[nk + (j-1) * (IF nk = 6 THEN 6 ELSE 4) + 1]])
      blk(b) == FoldLeftDomain(LAMBDA s, r : s \o Flat(e.enc[b].com[r]), <<>>, e.enc[b].com)
  IN FoldLeftDomain(LAMBDA s, b : s \o blk(b), kw, e.enc)
=============================================================================
