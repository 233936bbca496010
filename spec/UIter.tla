------------------------------- MODULE UIter --------------------------------
(***************************************************************************)
(* The contract of the borrowing iterators (C09): the iterator is the      *)
(* window [lo, hi) of the positions not yet produced, and every call does  *)
(* to the window, produces and answers what it does on a sequence.         *)
(***************************************************************************)
EXTENDS Common

IterFwd(lo, k) == [j \in 1..k |-> lo + j - 1]
IterBwd(hi, k) == [j \in 1..k |-> hi - j]

(* [y: positions produced, q: the answer, lo, hi: the window afterwards] *)
IterCall(w, o, k) ==
  LET rem == w.hi - w.lo
      n == Min2(rem, k)
      m == IF k < rem THEN k + 1 ELSE rem                  \* visits up to and including the k-th
      hit == k < rem
      front(j) == [y |-> IterFwd(w.lo, j), q |-> 0, lo |-> w.lo + j, hi |-> w.hi]
      back(j) == [y |-> IterBwd(w.hi, j), q |-> 0, lo |-> w.lo, hi |-> w.hi - j]
      ans(r, q) == [r EXCEPT !.q = q]
      B(b) == IF b THEN 1 ELSE 0
  IN CASE o = "nx" -> ans(front(Min2(rem, 1)), Min2(rem, 1))
       [] o = "nb" -> ans(back(Min2(rem, 1)), Min2(rem, 1))
       [] o = "nt" -> [y |-> IF hit THEN <<w.lo + k>> ELSE <<>>, q |-> B(hit), lo |-> w.lo + m, hi |-> w.hi]
       [] o = "ntb" -> [y |-> IF hit THEN <<w.hi - 1 - k>> ELSE <<>>, q |-> B(hit), lo |-> w.lo, hi |-> w.hi - m]
       [] o = "all" -> ans(front(m), B(~hit))
       [] o = "any" -> ans(front(m), B(hit))
       [] o = "find" -> ans(front(m), B(hit))
       [] o = "rfind" -> ans(back(m), B(hit))
       [] o = "pos" -> ans(front(m), IF hit THEN k ELSE -1)
       [] o = "rpos" -> ans(back(m), IF hit THEN rem - 1 - k ELSE -1)
       [] o = "fmap" -> ans(front(m), IF hit THEN k + 1 ELSE -1)
       [] o = "tf" -> ans(front(m), IF hit THEN -1 - k ELSE rem)
       [] o = "trf" -> ans(back(m), IF hit THEN -1 - k ELSE rem)
       [] o = "take" -> ans(front(n), n)
       \* the closure unwinds at its k-th visit: what it was given is gone
       [] o \in {"p.all", "p.any", "p.find", "p.pos", "p.fmap", "p.tf"} ->
            ans(front(m), IF hit THEN -9 ELSE CASE o = "p.all" -> 1 [] o \in {"p.any", "p.find"} -> 0 [] o = "p.tf" -> rem [] OTHER -> -1)
       [] o \in {"p.rfind", "p.rpos", "p.trf"} ->
            ans(back(m), IF hit THEN -9 ELSE CASE o = "p.rfind" -> 0 [] o = "p.trf" -> rem [] OTHER -> -1)
       \* the rest use the iterator up
       [] o = "count" -> [y |-> <<>>, q |-> rem, lo |-> w.hi, hi |-> w.hi]
       [] o = "last" -> [y |-> IF rem > 0 THEN <<w.hi - 1>> ELSE <<>>, q |-> Min2(rem, 1), lo |-> w.hi, hi |-> w.hi]
       [] o \in {"fe", "fold", "for"} -> ans(front(rem), rem)
       [] o \in {"rfold", "rev"} -> ans(back(rem), rem)
       [] o = "skip" -> [y |-> IterFwd(w.lo + n, rem - n), q |-> rem - n, lo |-> w.hi, hi |-> w.hi]
       [] o = "revskip" -> [y |-> IterBwd(w.hi - n, rem - n), q |-> rem - n, lo |-> w.hi, hi |-> w.hi]
       [] o = "step" -> LET c == IF rem = 0 THEN 0 ELSE (rem - 1) \div (k + 1) + 1
                        IN [y |-> [j \in 1..c |-> w.lo + (j - 1) * (k + 1)], q |-> c, lo |-> w.hi, hi |-> w.hi]
       [] o = "fused" -> LET c == Min2(rem, k + 1) IN [y |-> IterFwd(w.lo, c), q |-> c, lo |-> w.hi, hi |-> w.hi]

IterEnds == {"count", "last", "fe", "fold", "for", "rfold", "rev", "skip", "revskip", "step", "fused"}

IterMatch(want, got) == Len(want) = Len(got) /\ \A j \in DOMAIN want : want[j] \in Rng(got[j])

IterStep(acc, r) ==
  LET c == IterCall(acc.w, r.o, r.k)
      rest == c.hi - c.lo
  IN [w |-> [lo |-> c.lo, hi |-> c.hi],
      bad |-> acc.bad
        \cup V(IterMatch(c.y, r.y), "yields of " \o r.o, {"C09"})
        \cup V(r.q = c.q, "answer of " \o r.o, {"C09"})
        \cup V(r.o \in IterEnds \/ (r.l = rest /\ r.lo = rest /\ r.hi = rest), "length after " \o r.o, {"C09"})]

IterBroken(e) ==
  V(e.pan = 0, "iterator panics", {"C09"})
  \cup (IF e.pan = 1 THEN {} ELSE FoldLeft(IterStep, [w |-> [lo |-> 0, hi |-> e.n], bad |-> {}], e.rs).bad)
  \cup V(e.fin = 1, "writes through the references", {"C09"})
  \cup V(e.rz = 1, "outside storage", {"C09", "C04"})
=============================================================================
