------------------------------- MODULE Order --------------------------------
(***************************************************************************)
(* C11: comparison, hashing, formatting and serialization of two vecs are  *)
(* those of the sequences of their elements.  An ordering is -1, 0, 1, or  *)
(* 9 for "incomparable"; an element 9 of kinds p, pq and lp is comparable  *)
(* to nothing.                                                             *)
(***************************************************************************)
EXTENDS Common

OrdPartial == {"p", "pq", "lp"}
OrdNum(k, x, y) == IF k \in OrdPartial /\ (x = 9 \/ y = 9) THEN 9 ELSE IF x < y THEN -1 ELSE IF x > y THEN 1 ELSE 0

RECURSIVE OrdLex(_, _, _)
OrdLex(Cmp(_, _), a, b) ==
  IF a = <<>> /\ b = <<>> THEN 0
  ELSE IF a = <<>> THEN -1
  ELSE IF b = <<>> THEN 1
  ELSE LET c == Cmp(Head(a), Head(b)) IN IF c # 0 THEN c ELSE OrdLex(Cmp, Tail(a), Tail(b))

OrdElem(k, x, y) == OrdLex(LAMBDA u, v : OrdNum(k, u, v), x, y)
OrdSeq(k, a, b) == OrdLex(LAMBDA u, v : OrdElem(k, u, v), a, b)
OrdEq(k, a, b) == Len(a) = Len(b) /\ \A j \in DOMAIN a : Len(a[j]) = Len(b[j]) /\ \A i \in DOMAIN a[j] : OrdNum(k, a[j][i], b[j][i]) = 0

OrdB(b) == IF b THEN 1 ELSE 0

(* Debug output *)
Letters == <<"a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l">>
Quote == "\""
OrdCat(ss) == FoldLeft(LAMBDA acc, s : acc \o s, "", ss)
OrdStr(x) == Quote \o OrdCat([j \in DOMAIN x |-> Letters[x[j] + 1]]) \o Quote
RECURSIVE OrdJoin(_)
OrdJoin(ss) == IF ss = <<>> THEN "" ELSE IF Len(ss) = 1 THEN ss[1] ELSE ss[1] \o ", " \o OrdJoin(Tail(ss))
OrdList(ss) == "[" \o OrdJoin(ss) \o "]"
OrdLines(ss, ind) == IF ss = <<>> THEN "[]"
                     ELSE "[\n" \o OrdCat([j \in DOMAIN ss |-> ind \o "    " \o ss[j] \o ",\n"]) \o ind \o "]"
OrdNested(k) == k \in {"lp", "lo"}
OrdNums(x) == [j \in DOMAIN x |-> ToString(x[j])]
OrdDbg(k, a) == OrdList([j \in DOMAIN a |-> IF k = "str" THEN OrdStr(a[j]) ELSE IF OrdNested(k) THEN OrdList(OrdNums(a[j])) ELSE ToString(a[j][1])])
OrdDbgA(k, a) == OrdLines([j \in DOMAIN a |-> IF k = "str" THEN OrdStr(a[j]) ELSE IF OrdNested(k) THEN OrdLines(OrdNums(a[j]), "    ") ELSE ToString(a[j][1])], "")

(* serialization: a sequence of the announced length; -2 marks a number, -3 a string *)
OrdSerElem(k, x, s) ==
  IF k = "str" THEN s.l = -3 /\ s.e = [j \in DOMAIN x |-> 97 + x[j]]
  ELSE IF OrdNested(k) THEN s.l = Len(x) /\ Len(s.e) = Len(x) /\ \A j \in DOMAIN x : s.e[j].l = -2 /\ s.e[j].e = x[j]
  ELSE s.l = -2 /\ s.e = x[1]
OrdSer(k, a, s) == s.l = Len(a) /\ Len(s.e) = Len(a) /\ \A j \in DOMAIN a : OrdSerElem(k, a[j], s.e[j])

(* Receivers that fail.  A writer that takes too few bytes: its error comes back, it got   *)
(* a prefix and nothing more after failing (counted by the harness: sh = 1 if it always   *)
(* was so, over all lengths of the output).  A serializer that fails at the beginning (0), *)
(* at the j-th element or at the end (n + 1): that error comes back (-5: none did), and    *)
(* no element after the failing one was given to it.                                      *)
OrdFail(n, fs) == fs = [j \in 1..(n + 3) |-> IF j = n + 3 THEN <<-5, n>> ELSE <<j - 1, IF j - 1 <= n THEN j - 1 ELSE n>>]

OrdBroken(e) ==
  IF e.pan = 1 THEN {<<"comparing panics", {"C11"}>>}
  ELSE LET o == OrdSeq(e.k, e.a, e.b)
           q == OrdEq(e.k, e.a, e.b)
       IN V(e.eq = OrdB(q) /\ e.ne = OrdB(~q), "equality", {"C11"})
          \cup V(e.pc = o, "partial order", {"C11"})
          \cup V(e.rel = <<OrdB(o = -1), OrdB(o \in {-1, 0}), OrdB(o = 1), OrdB(o \in {0, 1})>>, "relations", {"C11"})
          \cup V(e.c = 8 \/ e.c = o, "total order", {"C11"})
          \cup V(q => e.heq = 1, "hash", {"C11"})
          (* every element is fed to the hasher (64 bits: chance does not make them agree) *)
          \cup V(e.a # e.b => e.heq = 0, "hash of the elements", {"C11"})
          \cup V(e.dbg = OrdDbg(e.k, e.a), "debug output", {"C11"})
          \cup V(e.dbga = OrdDbgA(e.k, e.a), "alternate debug output", {"C11"})
          \cup V(OrdSer(e.k, e.a, e.ser), "serialization", {"C11"})
          \cup V(e.sh = 1, "debug output to a failing writer", {"C11"})
          \cup V(OrdFail(Len(e.a), e.fs), "failing serializer", {"C11"})
=============================================================================
