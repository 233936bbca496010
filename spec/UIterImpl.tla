------------------------------ MODULE UIterImpl ------------------------------
(***************************************************************************)
(* A design model of the borrowing iterators over an offset table: what    *)
(* they keep (a window of the table and the offset its first element       *)
(* starts at), what next, nth, last, count and next_back do to it, and     *)
(* what the adaptors of the standard library make of those.  Checked step  *)
(* by step against the contract UIter: one state is a vec and an iterator  *)
(* on it, one transition is one call.                                      *)
(*                                                                         *)
(* Offsets are padded to Al, the vec's alignment ("u"), or not at all, for *)
(* values of one alignment ("a", Al = 1).  A produced reference is an      *)
(* address and a size; it stands for every position of the vec with that   *)
(* address and size.                                                       *)
(***************************************************************************)
EXTENDS UIter

CONSTANTS Prov, Shapes, MaxLen, Emit, Bug

VARIABLES vec,         \* [es: the elements, as indexes of Shapes; al; tab: where each ends]
          it,          \* [lo, hi: the window of the table; st: where the first element starts]
          w,           \* the contract's window
          bad

vars == <<vec, it, w, bad>>

Pad(n, a) == RoundUp(n, a)
Al == IF Prov = "u" THEN vec.al ELSE 1

(* the table: where each element ends *)
RECURSIVE Ends(_, _, _)
Ends(es, at, al) == IF es = <<>> THEN <<>>
                    ELSE LET e == at + Shapes[Head(es)].s IN <<e>> \o Ends(Tail(es), Pad(e, al), al)
Tab == vec.tab
StartOf(p) == IF p = 0 THEN 0 ELSE Pad(Tab[p], Al)

MaxAl(es) == FoldLeft(LAMBDA m, x : Max2(m, Shapes[x].a), 1, es)
SeqsUpTo(n) == UNION {[1..k -> 1..Len(Shapes)] : k \in 0..n}

---------------------------------------------------------------------------
(* the primitives: [it, r], r = <<>> or <<[at, s]>>                         *)

None(t) == [it |-> t, r |-> <<>>]
Ref(at, end) == <<[at |-> at, s |-> end - at]>>

Next1(t) ==
  IF t.lo = t.hi THEN None(t)
  ELSE LET e == Tab[t.lo + 1]
       IN [it |-> [t EXCEPT !.lo = @ + 1, !.st = IF Bug = "next-unpadded" THEN e ELSE Pad(e, Al)], r |-> Ref(t.st, e)]

Nth(t, n) ==
  LET ok == n > 0 /\ t.lo + n <= t.hi                     \* slice.nth(n - 1) found one
      st == IF ok THEN (IF Bug = "nth-unpadded" THEN Tab[t.lo + n] ELSE Pad(Tab[t.lo + n], Al)) ELSE t.st
      t1 == [t EXCEPT !.lo = IF n = 0 THEN @ ELSE Min2(t.hi, @ + n)]
  IN IF t1.lo = t1.hi THEN None(t1)
     ELSE LET e == Tab[t1.lo + 1]
          IN [it |-> [t1 EXCEPT !.lo = @ + 1, !.st = IF Bug = "nth-keeps-start" THEN t.st ELSE Pad(e, Al)], r |-> Ref(st, e)]

Back1(t) ==
  IF t.lo = t.hi THEN None(t)
  ELSE LET e == Tab[t.hi]
           rest == t.hi - 1 - t.lo
           st == IF rest > 0 THEN (IF Bug = "back-unpadded" THEN Tab[t.hi - 1] ELSE Pad(Tab[t.hi - 1], Al))
                 ELSE IF Bug = "back-from-zero" THEN 0 ELSE t.st
       IN [it |-> [t EXCEPT !.hi = @ - 1], r |-> Ref(st, e)]

(* k times next, or next_back *)
RECURSIVE Many(_, _, _)
Many(Step(_), t, k) ==
  IF k = 0 THEN [it |-> t, r |-> <<>>]
  ELSE LET a == Step(t)
       IN IF a.r = <<>> THEN a
          ELSE LET b == Many(Step, a.it, k - 1) IN [it |-> b.it, r |-> a.r \o b.r]

NthBack(t, n) == LET a == Many(Back1, t, n) IN IF Len(a.r) < n THEN None(a.it) ELSE Back1(a.it)
LenOf(t) == t.hi - t.lo

---------------------------------------------------------------------------
(* the calls: [it, y, q]                                                    *)

RECURSIVE Steps(_, _)
Steps(t, k) == LET a == Nth(t, k) IN IF a.r = <<>> THEN a ELSE LET b == Steps(a.it, k) IN [it |-> b.it, r |-> a.r \o b.r]

Ans(a, q) == [it |-> a.it, y |-> a.r, q |-> q]
Do(t, o, k) ==
  LET rem == LenOf(t)
      B(x) == IF x THEN 1 ELSE 0
      visit == Many(Next1, t, k + 1)                      \* a search that stops at its k-th visit
      rvisit == Many(Back1, t, k + 1)
      all == Many(Next1, t, 1000)
      rall == Many(Back1, t, 1000)
      hit == Len(visit.r) = k + 1
      rhit == Len(rvisit.r) = k + 1
  IN CASE o = "nx" -> LET a == Next1(t) IN Ans(a, Len(a.r))
       [] o = "nb" -> LET a == Back1(t) IN Ans(a, Len(a.r))
       [] o = "nt" -> LET a == Nth(t, k) IN Ans(a, Len(a.r))
       [] o = "ntb" -> LET a == NthBack(t, k) IN Ans(a, Len(a.r))
       [] o = "all" -> Ans(visit, B(~hit))
       [] o \in {"any", "find"} -> Ans(visit, B(hit))
       [] o = "rfind" -> Ans(rvisit, B(rhit))
       [] o = "pos" -> Ans(visit, IF hit THEN k ELSE -1)
       [] o = "rpos" -> Ans(rvisit, IF rhit THEN rem - 1 - k ELSE -1)          \* relies on len
       [] o = "fmap" -> Ans(visit, IF hit THEN k + 1 ELSE -1)
       [] o = "tf" -> Ans(visit, IF hit THEN -1 - k ELSE Len(visit.r))
       [] o = "trf" -> Ans(rvisit, IF rhit THEN -1 - k ELSE Len(rvisit.r))
       [] o \in {"p.all", "p.any", "p.find", "p.pos", "p.fmap", "p.tf"} ->
            LET a == IF hit /\ Bug = "unwinding-keeps" THEN [visit EXCEPT !.it = Many(Next1, t, k).it] ELSE visit
            IN Ans(a, IF hit THEN -9 ELSE CASE o = "p.all" -> 1 [] o \in {"p.any", "p.find"} -> 0 [] o = "p.tf" -> rem [] OTHER -> -1)
       [] o \in {"p.rfind", "p.rpos", "p.trf"} ->
            Ans(rvisit, IF rhit THEN -9 ELSE CASE o = "p.rfind" -> 0 [] o = "p.trf" -> rem [] OTHER -> -1)
       [] o = "take" -> LET a == Many(Next1, t, k) IN Ans(a, Len(a.r))
       [] o = "count" -> [it |-> t, y |-> <<>>, q |-> rem]
       [] o = "last" -> LET a == IF rem = 0 THEN None(t) ELSE Nth(t, IF Bug = "last-past" THEN rem ELSE rem - 1) IN Ans(a, Len(a.r))
       [] o \in {"fe", "fold", "for"} -> Ans(all, Len(all.r))
       [] o \in {"rfold", "rev"} -> Ans(rall, Len(rall.r))
       [] o = "skip" -> LET a == IF k = 0 THEN all
                                 ELSE LET f == Nth(t, k - 1) IN IF f.r = <<>> THEN f ELSE Many(Next1, f.it, 1000)
                        IN Ans(a, Len(a.r))
       [] o = "revskip" -> LET a == IF k = 0 THEN rall
                                    ELSE LET f == NthBack(t, k - 1) IN IF f.r = <<>> THEN f ELSE Many(Back1, f.it, 1000)
                           IN Ans(a, Len(a.r))
       [] o = "step" -> LET f == Next1(t)
                            b == Steps(f.it, k)
                            a == IF f.r = <<>> THEN f ELSE [it |-> b.it, r |-> f.r \o b.r]
                        IN Ans(a, Len(a.r))
       [] o = "fused" -> LET a == Many(Next1, t, k + 1) IN Ans(a, Len(a.r))

---------------------------------------------------------------------------
NoArg == {"nx", "nb", "count", "last", "fe", "fold", "for", "rfold", "rev"}
Calls == NoArg \cup {"nt", "ntb", "all", "any", "find", "rfind", "pos", "rpos", "fmap", "tf", "trf", "take", "skip", "revskip", "step", "fused",
                        "p.all", "p.any", "p.find", "p.pos", "p.fmap", "p.tf", "p.rfind", "p.rpos", "p.trf"}

(* the positions a produced reference may stand for *)
Where(r) == SetToSeq({p \in 0..(Len(vec.es) - 1) : StartOf(p) = r.at /\ Shapes[vec.es[p + 1]].s = r.s})

Init ==
  /\ \E es \in SeqsUpTo(MaxLen), up \in (IF Prov = "u" THEN {1, 16} ELSE {1}) :
       LET al == Max2(up, MaxAl(es)) IN vec = [es |-> es, al |-> al, tab |-> Ends(es, 0, IF Prov = "u" THEN al ELSE 1)]
  /\ it = [lo |-> 0, hi |-> Len(vec.es), st |-> 0]
  /\ w = [lo |-> 0, hi |-> Len(vec.es)] /\ bad = {}

Live == w.lo >= 0

Call(o, k) ==
  LET a == Do(it, o, k)
      l == LenOf(a.it)
      r == [o |-> o, k |-> k, y |-> [j \in DOMAIN a.y |-> Where(a.y[j])], q |-> a.q, l |-> l, lo |-> l, hi |-> l]
      c == IterStep([w |-> w, bad |-> {}], r)
  IN /\ bad' = c.bad
     /\ it' = (IF o \in IterEnds THEN [lo |-> 0, hi |-> 0, st |-> 0] ELSE a.it)
     /\ w' = (IF o \in IterEnds THEN [lo |-> -1, hi |-> -1] ELSE c.w)
     /\ Emit => PrintT(ToString(<<"T", [j \in DOMAIN vec.es |-> <<Shapes[vec.es[j]].sh, Shapes[vec.es[j]].nc>>], IF vec.al > MaxAl(vec.es) THEN 1 ELSE 0, w.lo, w.hi, o, k, w'.lo, w'.hi>>))
     /\ UNCHANGED vec

Next == Live /\ \E o \in Calls, k \in 0..(w.hi - w.lo + 1) : (k > 0 => o \notin NoArg) /\ Call(o, k)
Spec == Init /\ [][Next]_vars

---------------------------------------------------------------------------
Holds == bad = {}
(* the iterator's window is the contract's, and its offset is where the window starts *)
Agrees == Live => it.lo = w.lo /\ it.hi = w.hi
Placed == Live /\ it.lo < it.hi => it.st = StartOf(it.lo)
=============================================================================
