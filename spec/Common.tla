------------------------------- MODULE Common -------------------------------
(***************************************************************************)
(* Sequences, bags, the allocator's ledger: what all contracts share.      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

HUGE == 1000000000            \* larger numbers are recorded as this

---------------------------------------------------------------------------
(* sequences and bags (as sequences)                                       *)

Max2(a, b) == IF a >= b THEN a ELSE b
Min2(a, b) == IF a <= b THEN a ELSE b
RoundUp(n, m) == ((n + m - 1) \div m) * m

Rng(s) == {s[k] : k \in DOMAIN s}
Cnt(s, x) == Cardinality({k \in DOMAIN s : s[k] = x})
BagLE(a, b) == a = b \/ \A x \in Rng(a) : Cnt(a, x) <= Cnt(b, x)
BagEQ(a, b) == Len(a) = Len(b) /\ BagLE(a, b)
Flat(ss) == FoldLeft(LAMBDA acc, el : acc \o el.c, <<>>, ss)
Sum(s) == FoldLeft(LAMBDA acc, x : acc + x, 0, s)

InsAt(s, i, x) == SubSeq(s, 1, i) \o <<x>> \o SubSeq(s, i + 1, Len(s))
RemAt(s, i) == SubSeq(s, 1, i) \o SubSeq(s, i + 2, Len(s))
Pre(s, k) == SubSeq(s, 1, k)

(* the bag a minus the bag b, for BagLE(b, a) *)
RECURSIVE Minus(_, _)
Minus(a, b) ==
  IF b = <<>> THEN a
  ELSE LET ks == {k \in DOMAIN a : a[k] = Head(b)}
       IN IF ks = {} THEN Minus(a, Tail(b))
          ELSE LET k == CHOOSE k \in ks : TRUE IN Minus(RemAt(a, k - 1), Tail(b))

(* a clause: broken ones are reported with the properties they belong to *)
V(ok, name, props) == IF ok THEN {} ELSE {<<name, props>>}

---------------------------------------------------------------------------
(* C07: the allocator's ledger.  blk maps live block ids to [s, a, l].     *)

Without(f, i) == [x \in DOMAIN f \ {i} |-> f[x]]
MemStep(acc, m) ==
  LET known == m.i \in DOMAIN acc.blk
      fits == known /\ acc.blk[m.i].s = m.s /\ acc.blk[m.i].a = m.a
  IN CASE m.t = "A" -> [acc EXCEPT !.blk = (m.i :> [s |-> m.s, a |-> m.a, l |-> m.l]) @@ acc.blk]
       [] m.t = "D" -> [blk |-> IF known THEN Without(acc.blk, m.i) ELSE acc.blk, ok |-> acc.ok /\ fits]
       [] m.t = "R" -> [blk |-> (m.j :> [s |-> m.z, a |-> m.a, l |-> m.l])
                                @@ (IF known THEN Without(acc.blk, m.i) ELSE acc.blk),
                        ok |-> acc.ok /\ fits]
       [] m.t = "F" -> acc
       [] OTHER -> [acc EXCEPT !.ok = FALSE]         \* X: unknown block, Z: zero-size request
Replay(blk, mem) == FoldLeft(MemStep, [blk |-> blk, ok |-> TRUE], mem)
=============================================================================
