------------------------------ MODULE UVecImpl ------------------------------
(***************************************************************************)
(* A design model of the three storage schemes of UnsizedVec, down to the  *)
(* bytes: where elements lie, how capacities grow and shrink, how elements *)
(* are shifted, realigned and put back when user code unwinds or the       *)
(* allocator refuses.                                                      *)
(*                                                                         *)
(*   Prov = "s"  a std Vec of sized values                                 *)
(*   Prov = "a"  one alignment for all values, an offset table             *)
(*   Prov = "u"  alignments differ, offsets padded to the vec's alignment  *)
(*                                                                         *)
(* One state is one vec at rest; one transition is one public call, with   *)
(* or without a fault injected.  Every transition yields the event the     *)
(* harness would record, and Holds requires that the contract UVec accepts *)
(* it.  The transitions, printed when Emit, are the histories the harness  *)
(* replays on the real code.                                               *)
(*                                                                         *)
(* Bug re-seeds a known way of getting it wrong: the contract must reject  *)
(* each (see tools/mutants.py).                                            *)
(***************************************************************************)
EXTENDS UVec

CONSTANTS Prov,        \* "s", "a", "u"
          Shapes,      \* sequence of [s, a, sh, nc]: size, alignment, and how a script names it
          MaxLen, MaxCap, MaxBc,
          Amts, Bytes, Aligns,      \* arguments of reservations and shrinking
          AllocFaults, UserFaults, Extra,
          Ops,         \* the calls considered, by name; {} means all
          Emit, Bug

VARIABLES v,           \* the vec at rest
          e,           \* the last event (hidden by the view)
          b            \* what the contract says of it

Big == 2000000000      \* an amount no reservation can serve
TS == IF Prov = "a" THEN 8 ELSE 16         \* size of a table entry

NoVec == [ex |-> 0, cap |-> 0, bc |-> 0, al |-> 0, pa |-> 0, bid |-> 0, tid |-> 0, info |-> <<>>]

Pad(n, a) == RoundUp(n, a)
SAl == Shapes[1].a     \* the alignment of all values, unless Prov = "u"
SSz == Shapes[1].s     \* the size of all values, if Prov = "s"
Zst == Prov = "s" /\ SSz = 0

---------------------------------------------------------------------------
(* memory: a function from 0-based positions; a byte is id * 16 + k        *)

Start(w, i) == IF i = 0 THEN 0
               ELSE IF Prov = "u" THEN Pad(w.info[i].end, w.al) ELSE w.info[i].end
Len0(w) == Len(w.info)
ByteLen(w) == IF w.info = <<>> THEN 0
              ELSE IF Prov = "u" THEN Pad(w.info[Len(w.info)].end, w.al) ELSE w.info[Len(w.info)].end
SizeAt(w, i) == IF Prov = "a" THEN w.info[i + 1].end - Start(w, i) ELSE w.info[i + 1].s

Fill(w) ==
  LET n == Len0(w)
      own(p) == {i \in 0..(n - 1) : p >= Start(w, i) /\ p < Start(w, i) + w.info[i + 1].s}
  IN [p \in 0..(w.bc - 1) |-> IF own(p) = {} THEN 0
                             ELSE LET i == CHOOSE i \in own(p) : TRUE IN (i + 1) * 16 + (p - Start(w, i))]

(* memmove; out of range writes are dropped and remembered in oob *)
Move(w, src, dst, n) ==
  IF n <= 0 \/ src = dst THEN (IF n < 0 THEN [w EXCEPT !.oob = TRUE] ELSE w)
  ELSE [w EXCEPT !.m = [p \in DOMAIN w.m |-> IF p >= dst /\ p < dst + n
                                            THEN (IF p - dst + src \in DOMAIN w.m THEN w.m[p - dst + src] ELSE 0)
                                            ELSE w.m[p]],
                 !.oob = @ \/ src < 0 \/ dst < 0 \/ src + n > w.bc \/ dst + n > w.bc]
Write(w, at, id, s, n) ==
  [w EXCEPT !.m = [p \in DOMAIN w.m |-> IF p >= at /\ p < at + n THEN id * 16 + (p - at) ELSE w.m[p]],
            !.oob = @ \/ (n > 0 /\ (at < 0 \/ at + n > w.bc))]

ReadAt(w, at, s, t) ==
  IF s < 0 THEN <<-3>>
  ELSE IF s = 0 THEN t
  ELSE IF at < 0 \/ at + s > w.bc THEN <<-2>>
  ELSE LET id == w.m[at] \div 16
       IN IF id > 0 /\ \A k \in 0..(s - 1) : w.m[at + k] = id * 16 + k THEN <<id>> ELSE <<-1>>
Tok(x) == IF Prov = "a" THEN <<>> ELSE <<100 + x.a>>
Read(w, i) == ReadAt(w, Start(w, i), SizeAt(w, i), Tok(w.info[i + 1]))

---------------------------------------------------------------------------
(* the allocator: acc = [w, mem, left, ok]                                  *)

Acc(w, left) == [w |-> w, mem |-> <<>>, left |-> left, ok |-> TRUE]
Refuse(acc) == acc.left \in {1, -1}
Dec(acc) == IF acc.left > 0 THEN acc.left - 1 ELSE acc.left
M(t, i, s, a, j, z) == [t |-> t, i |-> i, s |-> s, a |-> a, j |-> j, z |-> z, l |-> 1]

Refusal(acc, s, a) == [acc EXCEPT !.mem = Append(@, M("F", 0, s, a, 0, 0)), !.left = Dec(acc), !.ok = FALSE]

(* the element table *)
TableTo(acc, n) ==
  LET w == acc.w
      id == IF w.tid = 3 THEN 4 ELSE 3
  IN IF n = 0 THEN [acc EXCEPT !.mem = Append(@, M("D", w.tid, w.cap * TS, 8, 0, 0)), !.w.cap = 0, !.w.tid = 0]
     ELSE IF Refuse(acc) THEN Refusal(acc, n * TS, 8)
     ELSE [acc EXCEPT !.mem = Append(@, IF w.cap = 0 THEN M("A", id, n * TS, 8, 0, 0) ELSE M("R", w.tid, w.cap * TS, 8, id, n * TS)),
                      !.left = Dec(acc), !.w.cap = n, !.w.tid = id]

(* the bytes *)
BytesTo(acc, n, al) ==
  LET w == acc.w
      id == IF w.bid = 1 THEN 2 ELSE 1
      was == w.al
      m2 == [p \in 0..(n - 1) |-> IF p \in DOMAIN w.m THEN w.m[p] ELSE 0]
      ev == IF w.bc = 0 THEN <<M("A", id, n, al, 0, 0)>>
            ELSE IF al = was THEN <<M("R", w.bid, w.bc, was, id, n)>>
            ELSE <<M("A", id, n, al, 0, 0), M("D", w.bid, w.bc, was, 0, 0)>>
  IN IF n = 0 THEN [acc EXCEPT !.mem = IF w.bc = 0 THEN @ ELSE Append(@, M("D", w.bid, w.bc, was, 0, 0)),
                               !.w.bc = 0, !.w.m = m2, !.w.bid = 0, !.w.pa = al]
     ELSE IF Refuse(acc) THEN Refusal(acc, n, al)
     ELSE [acc EXCEPT !.mem = @ \o ev, !.left = Dec(acc),
                      !.w.bc = n, !.w.m = m2, !.w.bid = id, !.w.pa = al]

CapTo(acc, n) ==
  IF Prov # "s" THEN TableTo(acc, n)
  ELSE LET r == BytesTo(acc, n * SSz, SAl) IN IF r.ok THEN [r EXCEPT !.w.cap = n] ELSE r

---------------------------------------------------------------------------
(* growing                                                                  *)

NotOk(acc) == [acc EXCEPT !.ok = FALSE]

MinCap == IF Prov = "s" /\ SSz = 1 THEN 8 ELSE 4

ResElem(acc, n, exact) ==
  LET w == acc.w IN
  IF w.cap - Len0(w) >= n THEN acc
  ELSE IF n >= HUGE THEN NotOk(acc)
  ELSE CapTo(acc, IF exact THEN Len0(w) + n ELSE Max2(Max2(2 * w.cap, Len0(w) + n), MinCap))

(* what the bytes in use become when the alignment is raised *)
RECURSIVE UpEnds(_, _, _, _)
UpEnds(info, shift, old, new) ==
  IF info = <<>> THEN <<>>
  ELSE LET x == Head(info)
           e1 == x.end + shift
       IN <<[x EXCEPT !.end = e1]>> \o UpEnds(Tail(info), shift + Pad(e1, new) - Pad(e1, old), old, new)
LenUp(w, new) == LET i2 == UpEnds(w.info, 0, w.al, new)
                 IN IF i2 = <<>> THEN 0 ELSE Pad(i2[Len(i2)].end, new)

(* elements move to the right, last first *)
RECURSIVE MoveUp(_, _, _, _, _)
MoveUp(w, old, new, ends, k) ==
  IF k < 1 THEN w
  ELSE LET from == Pad(old[k].end, w.al)
           to == Pad(ends[k].end, new)
       IN MoveUp(Move(w, from, to, old[k + 1].end - from), old, new, ends, k - 1)
RECURSIVE MoveUpFirst(_, _, _, _, _)
MoveUpFirst(w, old, new, ends, k) ==
  IF k >= Len(old) THEN w
  ELSE LET from == Pad(old[k].end, w.al)
           to == Pad(ends[k].end, new)
       IN MoveUpFirst(Move(w, from, to, old[k + 1].end - from), old, new, ends, k + 1)
RealignUp(w, new) ==
  LET ends == UpEnds(w.info, 0, w.al, new)
      w1 == IF Bug = "up-first" THEN MoveUpFirst(w, w.info, new, ends, 1) ELSE MoveUp(w, w.info, new, ends, Len(w.info) - 1)
  IN [w1 EXCEPT !.info = ends, !.al = new]

RECURSIVE MoveDown(_, _, _, _, _, _)
MoveDown(w, old, new, k, shift, start) ==
  IF k > Len(old) THEN w
  ELSE LET e1 == old[k].end - shift
           s1 == start - shift
           w1 == Move(w, start, s1, e1 - s1)
           st1 == Pad(old[k].end, w.al)
       IN MoveDown([w1 EXCEPT !.info[k].end = IF Bug = "down-keeps-offsets" THEN @ ELSE e1], old, new, k + 1, st1 - Pad(e1, new), st1)
RealignDown(w, new) == [MoveDown(w, w.info, new, 1, 0, 0) EXCEPT !.al = new]

AddBytes(acc, n, al) ==
  LET w == acc.w IN
  IF n >= HUGE THEN (IF Zst THEN acc ELSE NotOk(acc))
  ELSE CASE Prov = "s" ->
              IF SSz = 0 \/ n = 0 THEN acc
              ELSE CapTo(acc, w.cap + (n + SSz - 1) \div SSz)
         [] Prov = "a" ->
              IF n = 0 THEN acc
              ELSE BytesTo(acc, w.bc + n, SAl)
         [] OTHER ->
              LET new == Max2(w.al, al)
                  cost == IF w.al < new THEN LenUp(w, new) - ByteLen(w) ELSE 0
                  cap2 == IF Bug = "double-count" THEN Pad(w.bc + cost + n + ByteLen(w), new)
                          ELSE Pad(Pad(w.bc + cost, new) + n, new)
              IN IF w.al = new /\ n = 0 THEN acc
                 ELSE IF w.al = new /\ w.bc = cap2 THEN acc
                 ELSE IF cap2 = 0 THEN [acc EXCEPT !.w.al = IF Bug = "align-forgotten" THEN @ ELSE new, !.w.pa = new]
                 ELSE LET r == BytesTo(acc, cap2, new)
                      IN IF ~r.ok THEN r
                         ELSE IF w.al = new THEN r
                         ELSE [r EXCEPT !.w = RealignUp(@, new)]

Unused(w) == w.bc - ByteLen(w)

(* first try to double, then what is really needed *)
Bytewise(acc, needed, optimist, al) ==
  IF optimist > needed
  THEN LET r == AddBytes(acc, optimist, al)
       IN IF r.ok THEN r ELSE AddBytes([r EXCEPT !.ok = TRUE], needed, al)
  ELSE AddBytes(acc, needed, al)

TryRes(acc, n, by, al, exact) ==
  LET r == ResElem(acc, n, exact)
      needed == IF Bug = "promise-short" THEN Max2(0, by - r.w.bc) ELSE Max2(0, by - Unused(r.w))
  IN IF ~r.ok THEN r
     ELSE IF exact THEN AddBytes(r, needed, al)
     ELSE Bytewise(r, needed, IF needed > 0 /\ needed < HUGE THEN Max2(needed, r.w.bc) ELSE 0, al)

ResFor(acc, x) ==
  IF Prov = "s" THEN ResElem(acc, 1, FALSE)
  ELSE LET r == ResElem(acc, 1, FALSE)
           needed == IF Bug = "elem-ignores-spare" THEN x.s ELSE Max2(0, x.s - Max2(0, Unused(r.w)))
       IN IF ~r.ok THEN r
          ELSE Bytewise(r, needed, IF needed > 0 /\ r.w.bc > needed THEN r.w.bc ELSE 0, x.a)

---------------------------------------------------------------------------
(* shrinking                                                                *)

CapDown(acc, n) ==
  LET w == acc.w
      to == Max2(Len0(w), n)
  IN IF Zst \/ w.cap <= to THEN acc ELSE CapTo(acc, to)

MaxAlign(w) == FoldLeft(LAMBDA a, x : Max2(a, x.a), 1, w.info)

ShrinkAll(acc, n, by, al) ==
  IF Prov = "s" THEN CapDown(acc, Max2(n, (by + Max2(SSz, 1) - 1) \div Max2(SSz, 1)))
  ELSE LET r == CapDown(acc, n)
           w == r.w
       IN IF ~r.ok THEN r
          ELSE IF Prov = "a"
          THEN LET to == Max2(ByteLen(w), by)
                   s == BytesTo(r, to, SAl)
               IN IF to >= w.bc THEN r ELSE [s EXCEPT !.ok = TRUE]           \* a refusal keeps the old block
          ELSE LET new == Max2(Min2(al, w.al), MaxAlign(w))
                   move == new < w.al /\ Len0(w) > 1
                   w1 == IF move THEN RealignDown(w, new) ELSE [w EXCEPT !.al = new]
                   len == IF w1.info = <<>> THEN 0 ELSE Pad(w1.info[Len(w1.info)].end, new)
                   to == IF Bug = "cap-unpadded" THEN Max2(Min2(by, w.bc), len) ELSE Max2(Pad(Min2(by, w.bc), new), len)
                   id == IF w.bid = 1 THEN 2 ELSE 1
                   m2 == [p \in 0..(to - 1) |-> IF p \in DOMAIN w1.m THEN w1.m[p] ELSE 0]
                   ev == IF new = w.al THEN <<M("R", w.bid, w.bc, w.al, id, to)>>
                         ELSE <<M("A", id, to, new, 0, 0), M("D", w.bid, w.bc, w.al, 0, 0)>>
               IN IF ~(to < w.bc \/ new < w.al) THEN r
                  ELSE IF to = 0
                  THEN [r EXCEPT !.mem = IF w.bc = 0 THEN @ ELSE Append(@, M("D", w.bid, w.bc, w.al, 0, 0)),
                                 !.w = [w1 EXCEPT !.bc = 0, !.m = m2, !.bid = 0, !.pa = new]]
                  ELSE IF Refuse(r)
                  THEN LET f == Refusal(r, to, new)
                       IN [f EXCEPT !.ok = TRUE,
                                    !.w = IF Bug = "not-restored" THEN [w1 EXCEPT !.al = w.al]
                                          ELSE IF move THEN RealignUp(w1, w.al) ELSE w]
                  ELSE [r EXCEPT !.mem = @ \o ev, !.left = Dec(r),
                                 !.w = [w1 EXCEPT !.bc = to, !.m = m2, !.bid = id, !.pa = new]]

---------------------------------------------------------------------------
(* adding and taking                                                        *)

ASize(w, s) == IF Prov = "u" THEN Pad(s, w.al) ELSE s

Shifted(w, i, d) == [k \in DOMAIN w.info |-> IF k > i THEN [w.info[k] EXCEPT !.end = @ + d] ELSE w.info[k]]

(* room at i, then the value; half of it if it unwinds while being written *)
Insert(w, i, x, id, how) ==
  LET at == IF Bug = "index-as-offset" /\ i < Len0(w) THEN i ELSE Start(w, i)
      d == ASize(w, x.s)
      tail == ByteLen(w) - at
      w1 == IF how = "push" THEN w ELSE Move(w, at, at + d, tail)
      w2 == Write(w1, at, id, x.s, IF how = "half" THEN x.s \div 2 ELSE x.s)
  IN IF how = "half"
     THEN IF Bug = "no-shift-back" THEN w2 ELSE Move(w2, at + d, at, tail)
     ELSE [w2 EXCEPT !.info = InsAt(Shifted(w, i, d), i, [s |-> x.s, a |-> x.a, end |-> at + x.s])]

TakeOut(w, i) ==
  LET at == Start(w, i)
      d == ASize(w, SizeAt(w, i))
      w1 == [w EXCEPT !.info = RemAt(Shifted(w, i + 1, -d), i)]
      n == (IF Bug = "moves-old-tail" THEN ByteLen(w) ELSE ByteLen(w1)) - at
  IN [Move(w, at + d, at, n) EXCEPT !.info = w1.info]

---------------------------------------------------------------------------
(* what can be observed                                                     *)

Mod(w, at) == (Max2(w.pa, 1) + at) % 256

Obs(w) ==
  IF w.ex = 0 THEN [ex |-> 0]
  ELSE LET n == Len0(w) IN
       [ex |-> 1, len |-> n, emp |-> IF n = 0 THEN 1 ELSE 0, cap |-> IF Zst THEN HUGE ELSE w.cap, bc |-> w.bc, bl |-> IF Bug = "room-as-length" THEN w.bc ELSE ByteLen(w),
        al |-> w.al, it |-> 1, gn |-> 1,
        e |-> [k \in 1..n |-> LET s == SizeAt(w, k - 1)
                                  at == Start(w, k - 1)
                              IN [c |-> Read(w, k - 1), s |-> s, a |-> w.info[k].a,
                                  b |-> IF s > 0 THEN w.bid ELSE 0, o |-> IF s > 0 THEN at ELSE 0, m |-> Mod(w, at)]]]

Out(w, i) == [c |-> Read(w, i), s |-> SizeAt(w, i), a |-> w.info[i + 1].a, k |-> 1]

Blk(w) ==
  (IF w.bc > 0 THEN w.bid :> [s |-> w.bc, a |-> IF Prov = "s" THEN SAl ELSE w.al, l |-> 1] ELSE <<>>)
  @@ (IF Prov # "s" /\ w.cap > 0 THEN w.tid :> [s |-> w.cap * TS, a |-> 8, l |-> 1] ELSE <<>>)

St(w) == [St0([pv |-> Prov, tr |-> 1, k |-> IF Zst THEN "s0" ELSE "m"]) EXCEPT
            !.vs = <<Obs(w), None, None>>, !.blk = Blk(w)]

(* canonical form of a vec at rest: its bytes can be rebuilt *)
Rest(w) == [ex |-> w.ex, cap |-> w.cap, bc |-> w.bc, al |-> w.al, pa |-> w.pa, bid |-> w.bid, tid |-> w.tid, info |-> w.info]
Open(w) == [ex |-> w.ex, cap |-> w.cap, bc |-> w.bc, al |-> w.al, pa |-> w.pa, bid |-> w.bid, tid |-> w.tid, info |-> w.info,
            m |-> Fill(w), oob |-> FALSE]

---------------------------------------------------------------------------
(* one public call.  o = [op, i, n, b, a, x, src, f, fk]                     *)

Op(op) == [op |-> op, i |-> 0, n |-> 0, b |-> 0, a |-> 1, x |-> 0, src |-> "", f |-> "none", fk |-> 0]

Ids1(x, id) == [c |-> IF x.s = 0 THEN Tok(x) ELSE <<id>>, s |-> x.s, a |-> x.a, k |-> 1]
Flat1(xs) == FoldLeft(LAMBDA acc, y : acc \o y.c, <<>>, xs)

(* [w, res, x, out, dr, mem] *)
Res(acc, res, x, out, dr) == [w |-> acc.w, res |-> res, x |-> x, out |-> out, dr |-> dr, mem |-> acc.mem]

Fresh == LET al == IF Prov = "u" THEN (IF Bug = "unaligned-start" THEN 1 ELSE 8) ELSE SAl
         IN [ex |-> 1, cap |-> IF Zst THEN Big ELSE 0, bc |-> 0, al |-> al, pa |-> al, bid |-> 0, tid |-> 0, info |-> <<>>, m |-> <<>>, oob |-> FALSE]

(* the k-th value of an iterator: slices differ in length *)
Nth(x, k) == IF Prov # "a" THEN x ELSE [x EXCEPT !.s = SAl * ((x.nc + k - 1) % 5)]

(* what dropping a vec frees *)
Released(w) == (IF Prov # "s" /\ w.cap > 0 THEN <<M("D", w.tid, w.cap * TS, 8, 0, 0)>> ELSE <<>>)
               \o (IF w.bc > 0 THEN <<M("D", w.bid, w.bc, IF Prov = "s" THEN SAl ELSE w.al, 0, 0)>> ELSE <<>>)

Left(o) == IF o.f = "alloc" THEN o.fk ELSE IF o.f = "allocs" THEN -1 ELSE 0

Reserved(acc, o) ==
  CASE o.op \in {"res", "tres"} -> ResElem(acc, o.n, FALSE)
    [] o.op = "trese" -> ResElem(acc, o.n, TRUE)
    [] o.op \in {"rese", "wc"} -> TryRes(acc, o.n, 0, 1, TRUE)
    [] o.op \in {"resb", "tresb"} -> TryRes(acc, o.n, o.b, 1, FALSE)
    [] o.op \in {"reseb", "treseb", "wcb"} -> TryRes(acc, o.n, o.b, 1, TRUE)
    [] o.op \in {"resba", "tresba"} -> TryRes(acc, o.n, o.b, o.a, FALSE)
    [] OTHER -> TryRes(acc, o.n, o.b, o.a, TRUE)

RECURSIVE Extend(_, _, _)
Extend(acc, xs, id) ==      \* [acc, rest]: the values not consumed when it unwinds
  IF xs = <<>> THEN [acc |-> acc, rest |-> <<>>]
  ELSE LET x == Head(xs)
           r == ResFor(acc, x)
       IN IF ~r.ok THEN [acc |-> r, rest |-> xs]
          ELSE Extend([r EXCEPT !.w = Insert(@, Len0(@), x, id, "push")], Tail(xs), id + 1)

Do(w, o) ==
  LET acc == Acc(w, Left(o))
      n == Len0(w)
      x == IF o.x = 0 THEN [s |-> 0, a |-> 1] ELSE Shapes[o.x]
      id == n + 1
      xd == Ids1(x, id)
      fr == Acc(IF o.op = "wcba" /\ Prov = "u" THEN [Fresh EXCEPT !.al = 1, !.pa = 1] ELSE Fresh, Left(o))
  IN CASE o.op \in {"new", "default"} -> Res(Acc(Fresh, 0), "ok", <<>>, <<>>, <<>>)
       [] o.op \in WithCap ->
            LET r == Reserved(fr, o)
            IN IF r.ok THEN Res(r, "ok", <<>>, <<>>, <<>>)
               ELSE Res([r EXCEPT !.w = w, !.mem = @ \o Released(r.w)], "panic", <<>>, <<>>, <<>>)   \* the half-made vec is dropped
       [] o.op = "from" ->
            \* o.n values of one shape, room for o.b more
            LET c == o.n + o.b
                xs == [k \in 1..o.n |-> Ids1(x, k)]
                end(k) == (IF Bug = "unsize-starts" THEN k - 1 ELSE k) * x.s
                bc == c * x.s
                nw == [ex |-> 1, cap |-> o.n, bc |-> bc, al |-> x.a, pa |-> x.a, bid |-> IF bc > 0 THEN 1 ELSE 0,
                       tid |-> IF o.n > 0 THEN 3 ELSE 0,
                       info |-> [k \in 1..o.n |-> [s |-> x.s, a |-> x.a, end |-> end(k)]],
                       m |-> [p \in 0..(bc - 1) |-> IF p < o.n * x.s THEN ((p \div x.s) + 1) * 16 + (p % x.s) ELSE 0], oob |-> FALSE]
            IN [w |-> nw, res |-> "ok", x |-> xs, out |-> <<>>, dr |-> <<>>,
                mem |-> (IF bc > 0 THEN <<M("A", 1, bc, x.a, 0, 0)>> ELSE <<>>)
                        \o (IF o.n > 0 THEN <<M("A", 3, o.n * TS, 8, 0, 0)>> ELSE <<>>)]
       [] o.op \in Adds ->
            LET i == IF o.op = "push" THEN n ELSE o.i
                how == IF o.op = "push" THEN "push" ELSE "ins"
                r == IF o.src = "val" THEN TryRes(acc, 1, x.s, x.a, FALSE) ELSE ResFor(acc, x)
                in == [r EXCEPT !.w = Insert(@, i, x, id, how)]
            IN IF i > n THEN Res(acc, "panic", <<xd>>, <<>>, xd.c)
               ELSE IF o.f = "p0" THEN Res(acc, "panic", <<xd>>, <<>>, xd.c)
               ELSE IF ~r.ok THEN Res(r, "panic", <<xd>>, <<>>, xd.c)
               ELSE IF o.f = "p1" THEN Res([r EXCEPT !.w = IF how = "push" THEN @ ELSE Insert(@, i, [x EXCEPT !.s = x.s], 0, "half")],
                                          "panic", <<xd>>, <<>>, xd.c)
               ELSE IF o.f = "p2" THEN Res([r EXCEPT !.w = IF how = "push" THEN Write(@, ByteLen(@), id, x.s, x.s \div 2)
                                                          ELSE Insert(@, i, x, id, "half")], "panic", <<xd>>, <<>>, xd.c)
               ELSE Res(in, IF o.f = "p3" THEN "panic" ELSE "ok", <<xd>>, <<>>, <<>>)
       [] o.op = "ext" ->
            LET xs == [k \in 1..o.n |-> Nth(x, k)]
                r0 == IF o.a = 0 THEN acc ELSE ResElem(acc, o.a, FALSE)        \* the announced lower bound
                ex == IF r0.ok THEN Extend(r0, xs, id) ELSE [acc |-> r0, rest |-> xs]
                all == [k \in 1..o.n |-> Ids1(xs[k], n + k)]
                left == Len(ex.rest)
            IN Res(ex.acc, IF ex.acc.ok THEN "ok" ELSE "panic", all, <<>>,
                   IF ex.acc.ok \/ ~r0.ok THEN <<>> ELSE Flat1(SubSeq(all, o.n - left + 1, o.n - left + 1)))
       [] o.op = "collect" ->
            LET xs == [k \in 1..o.n |-> Nth(x, k)]
                r0 == IF o.a = 0 THEN fr ELSE ResElem(fr, o.a, FALSE)
                ex == IF r0.ok THEN Extend(r0, xs, 1) ELSE [acc |-> r0, rest |-> xs]
                all == [k \in 1..o.n |-> Ids1(xs[k], k)]
                left == Len(ex.rest)
            IN IF ex.acc.ok THEN Res(ex.acc, "ok", all, <<>>, <<>>)
               ELSE Res([ex.acc EXCEPT !.w = w, !.mem = @ \o Released(ex.acc.w)], "panic", all, <<>>,
                        IF r0.ok THEN Flat1(SubSeq(all, 1, o.n - left + 1)) ELSE <<>>)
       [] o.op = "rt" -> Res(acc, "ok", <<>>, IF Prov = "s" THEN [k \in 1..n |-> Out(w, k - 1)] ELSE <<>>, <<>>)
       [] o.op = "pop" /\ n = 0 -> Res(acc, "none", <<>>, <<>>, <<>>)
       [] o.op = "rem" /\ o.i >= n -> Res(acc, "panic", <<>>, <<>>, <<>>)
       [] o.op \in Takes ->
            LET i == IF o.op = "pop" THEN n - 1 ELSE o.i
                y == Out(w, i)
                gone == [acc EXCEPT !.w = IF o.op = "pop" THEN [w EXCEPT !.info = Front(@)] ELSE TakeOut(w, i)]
                un == IF o.op = "pop" THEN gone
                      ELSE IF Bug = "not-removed" THEN acc ELSE gone
            IN CASE o.src = "pan0" -> Res(IF o.op = "pop" \/ Bug = "removed-early" THEN gone ELSE acc, "panic", <<>>, <<>>, <<>>)
                 [] o.src \in {"none", "forget"} -> Res(gone, "ok", <<>>, <<>>, <<>>)
                 [] o.f = "dtor" -> IF y.c = <<>> THEN Res(gone, "ok", <<>>, IF o.src = "null" THEN <<>> ELSE <<y>>, <<>>)
                                    ELSE Res(un, "panic", <<>>, <<>>, y.c)
                 [] OTHER -> Res(gone, "ok", <<>>, IF o.src \in {"null", "drop"} THEN <<>> ELSE <<y>>, y.c)
       [] o.op = "get" -> IF o.i < n THEN Res(acc, "ok", <<>>, <<Out(w, o.i)>>, <<>>)
                          ELSE Res(acc, IF o.src = "idx" THEN "panic" ELSE "none", <<>>, <<>>, <<>>)
       [] o.op \in Try -> LET r == Reserved(acc, o) IN Res(r, IF r.ok THEN "ok" ELSE "err", <<>>, <<>>, <<>>)
       [] o.op \in Infal -> LET r == Reserved(acc, o) IN Res(r, IF r.ok THEN "ok" ELSE "panic", <<>>, <<>>, <<>>)
       [] o.op \in Shrink ->
            LET r == CASE o.op = "st" -> CapDown(acc, o.n)
                       [] o.op = "stf" -> ShrinkAll(acc, 0, 0, 1)
                       [] o.op = "stb" -> ShrinkAll(acc, o.n, o.b, HUGE)
                       [] OTHER -> ShrinkAll(acc, o.n, o.b, o.a)
            IN Res(r, IF r.ok THEN "ok" ELSE "panic", <<>>, <<>>, <<>>)
       [] o.op = "drop" ->
            [w |-> [NoVec EXCEPT !.ex = 0] @@ [m |-> <<>>, oob |-> FALSE], res |-> "ok", x |-> <<>>, out |-> <<>>,
             dr |-> Flat([k \in 1..n |-> [c |-> Read(w, k - 1)]]),
             mem |-> Released(w)]

RefusedIn(r) == \E k \in DOMAIN r.mem : r.mem[k].t = "F"
Event(w, o, r) ==
  [op |-> o.op, v |-> 1, w |-> 2, i |-> o.i, n |-> IF o.n >= HUGE THEN HUGE ELSE o.n, b |-> IF o.b >= HUGE THEN HUGE ELSE o.b, a |-> o.a,
   src |-> o.src, f |-> o.f, fk |-> o.fk, res |-> r.res, x |-> r.x, out |-> r.out, dr |-> r.dr, cl |-> <<>>, mem |-> r.mem,
   er |-> IF r.res # "err" THEN 0 ELSE IF RefusedIn(r) \/ Bug = "overflow-as-refusal" THEN 2 ELSE 1,
   om |-> IF r.res = "panic" /\ RefusedIn(r) /\ Bug # "refusal-unreported" THEN <<LET fs == SelectSeq(r.mem, LAMBDA m : m.t = "F")
                                                       m == fs[Len(fs)] IN <<m.s, m.a>>>> ELSE <<>>,
   rz |-> IF r.w.oob THEN 0 ELSE 1, wi |-> 0, ps |-> <<Obs(r.w), [ex |-> 0], [ex |-> 0]>>]

---------------------------------------------------------------------------
(* what a user may call                                                     *)

ShapeIx == DOMAIN Shapes
WithAF(S) == S \cup {[o EXCEPT !.f = "alloc", !.fk = k] : o \in S, k \in AllocFaults \ {99}}
               \cup (IF 99 \in AllocFaults THEN {[o EXCEPT !.f = "allocs", !.fk = 1] : o \in S} ELSE {})

ResOps(ns, names) ==
  {[Op(p) EXCEPT !.n = n] : p \in names \cap {"res", "tres", "rese", "trese", "wc"}, n \in ns}
  \cup {[Op(p) EXCEPT !.n = n, !.b = by] : p \in names \cap {"resb", "tresb", "reseb", "treseb", "wcb"}, n \in ns, by \in Bytes}
  \cup {[Op(p) EXCEPT !.n = n, !.b = by, !.a = al] : p \in names \cap {"resba", "tresba", "reseba", "treseba", "wcba"}, n \in ns, by \in Bytes, al \in Aligns}

Creating ==
  {Op("new")} \cup WithAF(ResOps(Amts \cap 0..MaxCap, WithCap))
  \cup (IF "collect" \in Extra
        THEN WithAF({[Op("collect") EXCEPT !.n = k, !.b = 1, !.a = h, !.x = x] : k \in {0, 2}, h \in {0, 1}, x \in ShapeIx}) ELSE {})
  \cup (IF Prov # "s" /\ "from" \in Extra
        THEN {[Op("from") EXCEPT !.n = n, !.b = k, !.x = x] : n \in 0..Min2(MaxLen, 2), k \in 0..1, x \in ShapeIx} ELSE {})

Using(w) ==
  LET n == Len0(w)
      add == {[Op("push") EXCEPT !.x = x, !.src = s] : x \in ShapeIx, s \in {"val", "cus"}}
             \cup {[Op("ins") EXCEPT !.x = x, !.i = i, !.src = s] : x \in ShapeIx, i \in 0..n, s \in {"val", "cus"}}
      unw == {[o EXCEPT !.f = f] : o \in {o \in add : o.src = "cus"}, f \in UserFaults \cap {"p0", "p1", "p2", "p3"}}
      take == {[Op("pop") EXCEPT !.src = s] : s \in {"box", "null", "none"}}
              \cup {[Op("rem") EXCEPT !.i = i, !.src = s] : i \in 0..(n - 1), s \in {"box", "null", "none"}}
      untk == {[o EXCEPT !.f = "dtor", !.fk = 1] : o \in {o \in take : o.src \in {"null", "box"} /\ "dtor" \in UserFaults /\ n > 0}}
              \cup {[o EXCEPT !.src = "pan0"] : o \in {o \in take : o.src = "none" /\ "pan0" \in UserFaults /\ n > 0}}
      ex == IF "ext" \in Extra THEN {[Op("ext") EXCEPT !.n = k, !.b = 1, !.a = h, !.x = x] : k \in {2}, h \in {0, 2}, x \in ShapeIx} ELSE {}
      rej == {[Op("rem") EXCEPT !.i = n, !.src = "box"], [Op("get") EXCEPT !.i = n, !.src = "get"], [Op("get") EXCEPT !.i = n, !.src = "idx"],
              [Op("ins") EXCEPT !.i = n + 1, !.x = 1, !.src = "val"]}
      shr == {[Op("st") EXCEPT !.n = k] : k \in Amts \ {Big}} \cup {Op("stf")}
             \cup {[Op("stb") EXCEPT !.n = k, !.b = by] : k \in Amts \ {Big}, by \in Bytes \ {Big}}
             \cup {[Op("stba") EXCEPT !.n = k, !.b = by, !.a = al] : k \in Amts \ {Big}, by \in Bytes \ {Big}, al \in Aligns}
  IN WithAF(add \cup ex) \cup unw \cup take \cup untk \cup rej \cup WithAF(shr)
     \cup WithAF(ResOps(Amts, Reserve)) \cup {Op("drop")} \cup (IF "rt" \in Extra THEN {Op("rt")} ELSE {})
     \cup {[Op("get") EXCEPT !.i = i, !.src = "get"] : i \in 0..(n - 1)}

Calls == {o \in IF v.ex = 0 THEN Creating ELSE Using(v) : Ops = {} \/ o.op \in Ops}

Key(w) == <<w.ex, w.cap, w.bc, w.al, w.pa, [k \in DOMAIN w.info |-> <<w.info[k].s, w.info[k].a>>]>>

(* a fault that was never reached tells nothing new *)
Reached(o, r) == o.f \in {"alloc", "allocs"} => \E k \in DOMAIN r.mem : r.mem[k].t = "F"
(* byte counts of zero-sized values are not specified *)
Meant(o) == ~(Zst /\ o.op \in HasB /\ o.b > 0)

InBounds(w) == Len(w.info) <= MaxLen /\ (w.cap <= MaxCap \/ Zst) /\ w.bc <= MaxBc

(* block names alternate; at rest they are 1 and 3 *)
Norm(w) == [w EXCEPT !.bid = IF @ = 0 THEN 0 ELSE 1, !.tid = IF @ = 0 THEN 0 ELSE 3]

Init == v = NoVec /\ e = Op("init") /\ b = {}

Next ==
  \E o \in Calls :
    LET w == Open(v)
        r == Do(w, o)
        ev == Event(w, o, r)
    IN /\ Meant(o)
       /\ Reached(o, r)
       /\ v' = Norm(Rest(r.w))
       /\ InBounds(v')
       /\ e' = o
       /\ b' = {x[1] : x \in Broken(St(w), ev)}
       /\ Emit => PrintT(ToString(<<"T", Key(v), <<o.op, o.i, o.n, o.b, o.a, IF o.x = 0 THEN <<0, 0>> ELSE <<Shapes[o.x].sh, Shapes[o.x].nc>>, o.src, o.f, o.fk>>, Key(v')>>))

Spec == Init /\ [][Next]_<<v, e, b>>

View == <<v, b>>
Holds == b = {}
=============================================================================
