------------------------------ MODULE MCSponge ------------------------------
(***************************************************************************)
(* The buffering of the sponge (absorb in pieces, pad, squeeze in pieces), *)
(* with an uninterpreted permutation: the state is what has been absorbed  *)
(* block by block.  Piece by piece it absorbs exactly the concatenation of *)
(* the pieces with the domain byte and padding, and what it returns are    *)
(* the consecutive bytes of the output stream, whatever the pieces.        *)
(* Word = 0: lengths of partial blocks are exact.  Word > 0: they are cut  *)
(* to a machine word of that many values before they are compared with the *)
(* room left, as in the code before commit 11e8bd6; pieces whose rest is a *)
(* multiple of Word are then never finished, others get torn apart.        *)
(* Divisions are printed (Record) and replayed on the code, R = 4 quarters *)
(* of the real rate.                                                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS R, MaxIn, MaxOut, Pieces, Word, FastPath, Record
VARIABLES blocks,   \* permuted blocks, each a sequence of R absorbed symbols
          cur,      \* symbols absorbed since
          mode,     \* "absorb", "absorbing" (within a piece), "squeeze", "squeezing"
          todo,     \* rest of the piece in progress
          total,    \* symbols given so far
          idx, perms, out,
          hist      \* the pieces, if recorded
vars == <<blocks, cur, mode, todo, total, idx, perms, out, hist>>
PAD == -1   DOM == -2   END == -3   BOTH == -4
Cut(n) == IF Word = 0 THEN n ELSE n % Word
Init == blocks = <<>> /\ cur = <<>> /\ mode = "absorb" /\ todo = 0 /\ total = 0 /\ idx = 0 /\ perms = 0 /\ out = <<>> /\ hist = [in |-> <<>>, out |-> <<>>]
(* input symbols are numbered: total - todo + 1, ... *)
In(n) == [i \in 1..n |-> total - todo + i]
Update(n) == mode = "absorb" /\ total + n <= MaxIn /\ mode' = "absorbing" /\ todo' = n /\ total' = total + n
             /\ (Record => Len(hist.in) < 3) /\ hist' = (IF Record THEN [hist EXCEPT !.in = Append(@, n)] ELSE hist)
             /\ UNCHANGED <<blocks, cur, idx, perms, out>>
AbsorbStep ==
  /\ mode = "absorbing"
  /\ IF todo = 0 THEN mode' = "absorb" /\ UNCHANGED <<blocks, cur, todo, idx>>
     ELSE IF FastPath /\ idx = 0 /\ todo >= R
     THEN /\ blocks' = Append(blocks, In(R)) /\ todo' = todo - R /\ UNCHANGED <<cur, mode, idx>>
     ELSE LET p == Cut(todo)
              n == IF Cut(p + idx) > R THEN R - idx ELSE p
              c == cur \o In(n)
          IN /\ todo' = todo - n /\ mode' = mode
             /\ IF idx + n = R THEN blocks' = Append(blocks, c) /\ cur' = <<>> /\ idx' = 0
                ELSE blocks' = blocks /\ cur' = c /\ idx' = idx + n
  /\ UNCHANGED <<total, perms, out, hist>>
(* domain byte and padding share the last byte of a block if need be *)
Last(c) == IF Len(c) = R - 1 THEN Append(c, BOTH) ELSE Append(c, DOM) \o [i \in 1..(R - 2 - Len(c)) |-> PAD] \o <<END>>
Finish == mode = "absorb" /\ mode' = "squeeze" /\ blocks' = Append(blocks, Last(cur)) /\ cur' = <<>> /\ idx' = 0 /\ perms' = 0
          /\ UNCHANGED <<todo, total, out, hist>>
Squeeze(n) == mode = "squeeze" /\ Len(out) + n <= MaxOut /\ mode' = "squeezing" /\ todo' = n
              /\ (Record => Len(hist.out) < 2) /\ hist' = (IF Record THEN [hist EXCEPT !.out = Append(@, n)] ELSE hist)
              /\ UNCHANGED <<blocks, cur, total, idx, perms, out>>
Stream(p, a, n) == [i \in 1..n |-> p * R + a + i]
SqueezeStep ==
  /\ mode = "squeezing"
  /\ IF todo = 0 THEN mode' = "squeeze" /\ UNCHANGED <<todo, idx, perms, out>>
     ELSE IF FastPath /\ idx = R /\ todo >= R
     THEN perms' = perms + 1 /\ out' = out \o Stream(perms + 1, 0, R) /\ todo' = todo - R /\ UNCHANGED <<mode, idx>>
     ELSE LET q == IF idx = R THEN perms + 1 ELSE perms
              a == IF idx = R THEN 0 ELSE idx
              p == Cut(todo)
              n == IF Cut(p + a) > R THEN R - a ELSE p
          IN perms' = q /\ out' = out \o Stream(q, a, n) /\ todo' = todo - n /\ idx' = a + n /\ mode' = mode
  /\ UNCHANGED <<blocks, cur, total, hist>>
Next == \/ \E n \in Pieces : Update(n) \/ Squeeze(n)
        \/ AbsorbStep \/ Finish \/ SqueezeStep
Spec == Init /\ [][Next]_vars /\ WF_vars(AbsorbStep) /\ WF_vars(SqueezeStep)
----------------------------------------------------------------------------
Flat == LET f[i \in 0..Len(blocks)] == IF i = 0 THEN <<>> ELSE f[i - 1] \o blocks[i] IN f[Len(blocks)]
(* what has been absorbed is the input so far, in whole blocks *)
Absorbed == mode \in {"absorb", "absorbing"} => /\ Flat \o cur = [i \in 1..(total - todo) |-> i]
                                                /\ Len(cur) = idx /\ idx < R
Padded == mode \in {"squeeze", "squeezing"} =>
  /\ Len(blocks) = total \div R + 1
  /\ Flat = [i \in 1..(R * (total \div R)) |-> i] \o Last([i \in 1..(total % R) |-> R * (total \div R) + i])
Squeezed == out = [i \in 1..Len(out) |-> i] /\ (mode \in {"squeeze", "squeezing"} => perms * R + idx = Len(out))
Blocks == \A b \in 1..Len(blocks) : Len(blocks[b]) = R
Ends == [](mode \in {"absorbing", "squeezing"} => <>(mode \in {"absorb", "squeeze"}))
Emit == Record /\ mode = "squeeze" /\ Len(hist.out) = 2 => PrintT(<<"SCRIPT", ToJson(hist)>>)
=============================================================================
