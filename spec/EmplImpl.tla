------------------------------ MODULE EmplImpl -------------------------------
(***************************************************************************)
(* A design model of the emplacer protocol, in small steps: how a value    *)
(* travels from where an emplacable keeps it to the memory a receiver      *)
(* offers, with every place where user code or the allocator may unwind.   *)
(*                                                                         *)
(* A source is a lump of n parts (one value, a box, a vec, a borrowed      *)
(* slice, the harness's own emplacable, an argument that was lent), or a   *)
(* row of n emplacables of one part each (in an array or behind an         *)
(* iterator), of values, of boxes, or of the harness's own.  A receiver    *)
(* drops, forgets, takes the value into memory of its own or into a box,   *)
(* or misbehaves.                                                          *)
(*                                                                         *)
(* Each part is at every moment in exactly one place (loc); destroying it  *)
(* is an event of its own (dr).  Safe holds in every state; at the end of  *)
(* a scenario the event a harness would record must satisfy the contract   *)
(* Emplace.  The outcomes, printed when Emit, are compared with what the   *)
(* real code did in the same scenario.                                     *)
(***************************************************************************)
EXTENDS Emplace

CONSTANTS MaxN, Emit, Bug

ES == 2                         \* size and alignment of a part
VARIABLES sc, pc, i, loc, mem, live, dr, cl, calls, ann, out, arm, unw, ask
vars == <<sc, pc, i, loc, mem, live, dr, cl, calls, ann, out, arm, unw, ask>>

---------------------------------------------------------------------------
(* scenarios                                                               *)

Lumps == {"val", "box", "vec", "ref", "cus", "lend"}
Rows == {"arr", "arrb", "arrc", "iter", "iterb", "iterc", "iterl", "iterp"}
Iters == {"iter", "iterb", "iterc", "iterl", "iterp"}
Boxes == {"arrb", "iterb"}
Own == {"arrc", "iterc"}         \* rows of the harness's own emplacables
Sinks == {"drop", "forget", "null", "none", "pan0", "mem", "box"}

Sc(src, sink, n, m, f, fk) == [src |-> src, sink |-> sink, n |-> n, m |-> m, f |-> f, fk |-> fk]
Ms(src, n) == IF src = "iterl" THEN {k \in {0, n - 1, n, n + 1, n + 3} : k >= 0} ELSE IF src = "vec" THEN {0, 3} ELSE {0}
Faults(src, sink, n) ==
  {<<"none", 0>>}
  \cup (IF src \in Own THEN {<<p, k>> : p \in {"p0", "p1", "p2", "p3"}, k \in 1..n} ELSE {})
  \cup (IF src = "cus" THEN {<<p, 1>> : p \in {"p0", "p1", "p2", "p3"}} ELSE {})
  \cup (IF src = "iterp" THEN {<<"iter", k>> : k \in 1..(n + 1)} ELSE {})
  \cup (IF src = "ref" THEN {<<"clone", k>> : k \in 1..n} ELSE {})
  \cup (IF sink # "mem" /\ n > 0 THEN {<<"dtor", 1>>, <<"dtor", 2>>} ELSE {})
  \cup (IF sink = "box" THEN {<<"alloc", 1>>} ELSE {})

N == sc.n
Claim == IF sc.src = "iterl" THEN sc.m ELSE N
P == 1..N
Part(k, f) == sc.f = f /\ sc.fk = k                     \* the fault sits at part k
LumpF(f) == sc.src = "cus" /\ sc.f = f

---------------------------------------------------------------------------
(* memory: blocks 0 (the source's), 1..N (its parts'), 50 (the iterator's),  *)
(* 99 (the receiver's)                                                      *)

Mv(t, id, s, lib) == [t |-> t, i |-> id, s |-> s, a |-> ES, j |-> 0, z |-> 0, l |-> lib]
Blk(id) == IF id = 0 THEN (IF sc.src = "vec" THEN N + sc.m ELSE N) * ES
           ELSE IF id = 50 THEN N * 8 ELSE IF id = 99 THEN Claim * ES ELSE ES
(* what freeing does to <<mem, live>> *)
Free(st, id) == IF id \in st.live
                THEN [st EXCEPT !.mem = Append(@, Mv("D", id, IF Bug = "vec-len-layout" /\ sc.src = "vec" /\ id = 0 THEN N * ES ELSE Blk(id), 0)), !.live = @ \ {id}]
                ELSE IF Blk(id) = 0 THEN st ELSE [st EXCEPT !.mem = Append(@, Mv("D", id, Blk(id), 0))]
Grab(st, id) == IF Blk(id) = 0 THEN st ELSE [st EXCEPT !.mem = Append(@, Mv("A", id, Blk(id), 1)), !.live = @ \cup {id}]

Initial(s) == IF (s.src \in {"box", "cus"} /\ s.n > 0) \/ (s.src = "vec" /\ s.n + s.m > 0) THEN {0}
              ELSE IF s.src \in Boxes \cup Own THEN (1..s.n) \cup (IF s.src \in {"iterb", "iterc"} /\ s.n > 0 THEN {50} ELSE {}) ELSE {}
RECURSIVE Start0(_, _)
Start0(ids, s) == IF ids = {} THEN <<>>
                  ELSE LET k == CHOOSE k \in ids : \A x \in ids : k <= x
                       IN <<Mv("A", k, IF k = 0 THEN (IF s.src = "vec" THEN s.n + s.m ELSE s.n) * ES ELSE IF k = 50 THEN s.n * 8 ELSE ES, 0)>> \o Start0(ids \ {k}, s)

Init ==
  /\ \E src \in Lumps \cup Rows, sink \in Sinks, n \in 0..MaxN :
       \E m \in Ms(src, n), f \in Faults(src, sink, n) : sc = Sc(src, sink, n, m, f[1], f[2])
  /\ pc = "call" /\ i = 0
  /\ loc = [k \in 1..sc.n |-> IF sc.src = "ref" THEN "none" ELSE "src"]
  /\ live = Initial(sc) /\ mem = Start0(live, sc)
  /\ dr = <<>> /\ cl = <<>> /\ calls = 0 /\ ann = <<0, 0>> /\ out = <<>>
  /\ arm = (IF sc.f = "dtor" THEN sc.fk ELSE 0)
  /\ unw = FALSE /\ ask = 0

---------------------------------------------------------------------------
(* the steps work on this part of the state                                 *)

S == [loc |-> loc, mem |-> mem, live |-> live, dr |-> dr, arm |-> arm, unw |-> unw, cl |-> cl, ask |-> ask]
Put(st) == /\ loc' = st.loc /\ mem' = st.mem /\ live' = st.live /\ dr' = st.dr /\ arm' = st.arm /\ unw' = st.unw /\ cl' = st.cl /\ ask' = st.ask

Name(k) == IF sc.src = "ref" THEN 100 + k ELSE k
(* the destructor of part k: an unwinding destructor still has destroyed its value, and none unwinds while unwinding *)
Destroy(st, k) ==
  LET hit == st.arm = 1
  IN [st EXCEPT !.loc[k] = "dead", !.dr = Append(@, Name(k)), !.arm = IF @ > 0 THEN @ - 1 ELSE 0, !.unw = @ \/ hit]
(* a lump in place: the rest is destroyed even if one destructor unwinds *)
DestroyAll(st, ks) == FoldLeft(LAMBDA acc, k : Destroy(acc, k), st, ks)
(* an explicit loop over the elements: the rest is lost *)
DestroyLoop(st, ks) == FoldLeft(LAMBDA acc, k : IF acc.unw THEN [acc EXCEPT !.loc[k] = "lost"] ELSE Destroy(acc, k), st, ks)
Lose(st, ks) == FoldLeft(LAMBDA acc, k : [acc EXCEPT !.loc[k] = "lost"], st, ks)
From(k, m) == [x \in 1..Max2(m - k + 1, 0) |-> k + x - 1]

(* one of the harness's own emplacables is asked for its value *)
Asked(st) == [st EXCEPT !.ask = @ + 1]
(* dropping the emplacable of part k, unwinding or not *)
DropPart(st, k) ==
  LET calm == ~st.unw
      p0 == sc.src \in Own /\ calm /\ (Part(k, "p0") \/ Part(k, "p1"))
      d == Destroy(st, k)
  IN IF sc.src \in Own
     THEN \* the harness's own: a box dropped as a box, whatever happens
          LET g == Free(IF p0 THEN Destroy([st EXCEPT !.unw = TRUE], k) ELSE d, k)
              f == IF (calm /\ Part(k, "p0")) \/ (~calm /\ sc.src = "iterc") THEN g ELSE Asked(g)   \* what an iterator still holds are no emplacables yet
          IN IF Part(k, "p3") /\ calm /\ ~f.unw THEN [f EXCEPT !.unw = TRUE] ELSE f
     ELSE IF sc.src \in Boxes THEN (IF calm /\ d.unw THEN d ELSE Free(d, k))     \* an unwinding destructor leaves the box behind
     ELSE d
(* dropping what is left of a row, with the iterator that holds it *)
DropParts(st, ks) == LET d == FoldLeft(LAMBDA acc, k : DropPart(acc, k), st, ks)
                     IN IF sc.src \in Iters /\ 50 \in d.live THEN Free(d, 50) ELSE d

Rest == From(i + 1, N)

---------------------------------------------------------------------------
(* 1: the closure is called with the emplacer                               *)

Call ==
  /\ pc = "call"
  /\ IF LumpF("p0")
     THEN /\ Put(Free(DestroyAll([S EXCEPT !.unw = TRUE], From(1, N)), 0))
          /\ pc' = "end" /\ UNCHANGED <<calls, ann>>
     ELSE /\ calls' = calls + 1 /\ ann' = <<Claim * ES, Claim>>
          /\ pc' = (CASE sc.sink \in {"drop", "null"} -> "null"
                      [] sc.sink \in {"forget", "none"} -> "left"
                      [] sc.sink = "pan0" -> "refused"
                      [] OTHER -> "room")
          /\ UNCHANGED <<loc, mem, live, dr, arm, unw, cl, ask>>
  /\ UNCHANGED <<sc, i, out>>

(* 2: the receiver makes room *)
Room ==
  /\ pc = "room"
  /\ IF sc.f = "alloc" /\ Claim > 0
     THEN pc' = "refused" /\ UNCHANGED <<loc, mem, live, dr, arm, unw, cl, ask>>
     ELSE Put(Grab(S, 99)) /\ pc' = "write"
  /\ UNCHANGED <<sc, i, calls, ann, out>>

(* the emplacer unwinds before it asks for the value: containers stay behind, except the harness's own and what is lent *)
Refused ==
  /\ pc = "refused"
  /\ LET st == [S EXCEPT !.unw = TRUE]
     IN Put(IF sc.src = "ref" THEN st
            ELSE IF sc.src = "cus" THEN Free(DestroyAll(st, From(1, N)), 0)
            ELSE IF sc.src = "lend" THEN st
            ELSE Lose(st, From(1, N)))
  /\ pc' = "unwound" /\ UNCHANGED <<sc, i, calls, ann, out>>

(* the emplacer does not ask for the value and returns: it is forgotten *)
Left ==
  /\ pc = "left"
  /\ LET st == Lose(S, IF sc.src = "ref" THEN <<>> ELSE From(1, N))
         fr == IF sc.src \in {"box", "vec", "cus"} THEN Free(st, 0) ELSE st
     IN Put([fr EXCEPT !.unw = LumpF("p3")])
  /\ pc' = (IF LumpF("p3") THEN "unwound" ELSE "end")
  /\ UNCHANGED <<sc, i, calls, ann, out>>

(* 3a: the inner closure is called with null: the value is destroyed where it is *)
Null ==
  /\ pc = "null"
  /\ LET all == From(1, N)
         st == CASE sc.src = "ref" -> S
                 [] sc.src \in {"val", "lend"} -> DestroyAll(S, all)
                 [] sc.src = "box" -> LET d == DestroyAll(S, all) IN IF d.unw THEN d ELSE Free(d, 0)
                 [] sc.src = "vec" -> LET d == DestroyLoop(S, all) IN IF d.unw THEN d ELSE Free(d, 0)
                 [] sc.src = "cus" -> LET d == Asked(Free(DestroyAll(IF LumpF("p1") THEN [S EXCEPT !.unw = TRUE] ELSE S, all), 0))
                                      IN IF LumpF("p3") /\ ~d.unw THEN [d EXCEPT !.unw = TRUE] ELSE d
                 [] sc.src = "iterp" -> \* the iterator unwinds at its fk-th call; it is called once more than it has elements
                      LET k == IF sc.f = "iter" THEN sc.fk ELSE N + 2
                          d == FoldLeft(LAMBDA acc, p : DropPart(acc, p), S, From(1, Min2(k - 1, N)))
                          e == IF k <= N + 1 /\ ~d.unw THEN [d EXCEPT !.unw = TRUE] ELSE d
                      IN DropParts(e, From(k, N))
                 [] OTHER -> DropParts(S, all)
     IN Put(st) /\ pc' = (IF st.unw THEN "unwound" ELSE "end")
  /\ UNCHANGED <<sc, i, calls, ann, out>>

(* 3b: the inner closure is called with memory: a lump is copied at once *)
WriteLump ==
  /\ pc = "write" /\ sc.src \in Lumps \ {"ref"}
  /\ IF LumpF("p1") \/ LumpF("p2")
     THEN Put(Asked(Free(DestroyAll([S EXCEPT !.unw = TRUE], From(1, N)), 0))) /\ pc' = "undo"
     ELSE /\ Put(LET st == [S EXCEPT !.loc = [k \in P |-> "dst"]] IN IF sc.src = "cus" THEN Asked(Free(st, 0)) ELSE st)
          /\ pc' = "written"
  /\ UNCHANGED <<sc, i, calls, ann, out>>

(* ... a borrowed slice is cloned part by part *)
Clone ==
  /\ pc = "write" /\ sc.src = "ref"
  /\ IF i = N THEN pc' = "written" /\ UNCHANGED <<i, loc, mem, live, dr, arm, unw, cl, ask>>
     ELSE IF Part(i + 1, "clone")
     THEN Put([S EXCEPT !.unw = TRUE]) /\ pc' = "undo" /\ UNCHANGED i
     ELSE Put([S EXCEPT !.loc[i + 1] = "dst", !.cl = Append(@, <<i + 1, 101 + i>>)]) /\ i' = i + 1 /\ UNCHANGED pc
  /\ UNCHANGED <<sc, calls, ann, out>>

(* ... the emplacables of a row deliver one after the other *)
Deliver ==
  LET k == i + 1
      own == sc.src \in Own
      S1 == IF own /\ ~Part(k, "p0") THEN Asked(S) ELSE S
      st == IF own /\ (Part(k, "p0") \/ Part(k, "p1") \/ Part(k, "p2"))
            THEN Free(Destroy([S1 EXCEPT !.unw = TRUE], k), k)
            ELSE LET d == [S1 EXCEPT !.loc[k] = "dst"]
                     fr == IF sc.src \in Boxes \cup Own THEN Free(d, k) ELSE d
                 IN IF own /\ Part(k, "p3") THEN [fr EXCEPT !.unw = TRUE] ELSE fr
  IN /\ pc = "write" /\ sc.src \in Rows /\ i < Min2(N, Claim)
     /\ ~(sc.src = "iterp" /\ Part(k, "iter"))
     /\ Put(IF st.unw THEN DropParts(st, From(k + 1, N)) ELSE st)
     /\ i' = k /\ pc' = (IF st.unw THEN "undo" ELSE "write")
     /\ UNCHANGED <<sc, calls, ann, out>>
(* the iterator itself unwinds *)
Stop ==
  /\ pc = "write" /\ sc.src = "iterp" /\ i < N /\ Part(i + 1, "iter")
  /\ Put(DropParts([S EXCEPT !.unw = TRUE], Rest)) /\ pc' = "undo"
  /\ UNCHANGED <<sc, i, calls, ann, out>>
(* it ends: what it has beyond its claim is dropped; too few is found out *)
Full ==
  /\ pc = "write" /\ sc.src \in Rows /\ i = Min2(N, Claim)
  /\ LET st == DropParts(S, From(Claim + 1, N))
         short == N < Claim /\ Bug # "trusts-length"
     IN /\ Put(IF short THEN [st EXCEPT !.unw = TRUE] ELSE st)
        /\ pc' = (IF short \/ st.unw THEN "undo" ELSE "written")
  /\ UNCHANGED <<sc, i, calls, ann, out>>

(* 4a: unwound while writing: what was written is lost, the receiver's memory released *)
Undo ==
  /\ pc = "undo"
  /\ LET ks == SelectSeq(From(1, N), LAMBDA k : loc[k] = "dst")
         st == Lose(S, ks)
     IN Put(IF Bug = "no-undo" THEN st ELSE Free(st, 99))
  /\ pc' = "unwound" /\ UNCHANGED <<sc, i, calls, ann, out>>

(* 4b: written; memory of the receiver's own is looked at and cleared before it returns *)
Have == SelectSeq(From(1, N), LAMBDA k : loc[k] = "dst")
Look == [c |-> [k \in DOMAIN Have |-> Name(Have[k])], s |-> Claim * ES, a |-> ES, k |-> 1]
Written ==
  /\ pc = "written"
  /\ IF sc.sink = "mem"
     THEN /\ Put(LET st == Free(DestroyAll(S, Have), 99) IN IF sc.src \in {"box", "vec"} THEN Free(st, 0) ELSE st)
          /\ out' = (IF LumpF("p3") THEN <<>> ELSE <<Look>>)     \* what it saw, it returns
          /\ pc' = (IF LumpF("p3") THEN "late" ELSE "end")
     ELSE /\ Put(IF sc.src \in {"box", "vec"} THEN (IF Bug = "box-kept" THEN S ELSE Free(S, 0)) ELSE S)
          /\ out' = out
          /\ pc' = (IF LumpF("p3") THEN "late" ELSE "owned")
  /\ UNCHANGED <<sc, i, calls, ann>>

(* the emplacable unwinds after it delivered: what the receiver has is lost *)
Late ==
  /\ pc = "late"
  /\ Put(Lose([S EXCEPT !.unw = TRUE], Have))
  /\ pc' = "unwound" /\ UNCHANGED <<sc, i, calls, ann, out>>

(* 5: the owner looks at the value and drops it *)
Owned ==
  /\ pc = "owned"
  /\ out' = <<Look>>
  /\ LET st == DestroyAll(S, Have)
     IN Put(Free(st, 99)) /\ pc' = (IF st.unw THEN "unwound" ELSE "end")
  /\ UNCHANGED <<sc, i, calls, ann>>

(* unwound: the argument that was lent is dropped like any other (the known weakness) *)
Unwound ==
  /\ pc = "unwound"
  /\ IF sc.src = "lend" THEN Put(DestroyAll(S, From(1, N))) ELSE UNCHANGED <<loc, mem, live, dr, arm, unw, cl, ask>>
  /\ pc' = "end" /\ UNCHANGED <<sc, i, calls, ann, out>>

---------------------------------------------------------------------------
(* the event a harness would record                                         *)

Ids == [k \in P |-> k]
Event ==
  [t |-> "emp", h |-> IF sc.src = "lend" THEN 1 ELSE 0, ty |-> "l2",
   src |-> sc.src, sink |-> IF sc.src = "lend" THEN [drop |-> "wef:drop", forget |-> "wef:forget", null |-> "wef:null", none |-> "wef:none",
                                                     pan0 |-> "wef:pan0", mem |-> "wef:mem", box |-> "wef:box"][sc.sink] ELSE sc.sink,
   n |-> N, m |-> sc.m, f |-> sc.f, fk |-> sc.fk, res |-> IF unw THEN "panic" ELSE "ok", tr |-> 1,
   x |-> <<[c |-> IF sc.src = "ref" THEN [k \in P |-> IF k \in DOMAIN cl THEN cl[k][2] ELSE -4] ELSE Ids, s |-> N * ES, a |-> ES, k |-> 1]>>,
   out |-> out, claim |-> IF sc.src \in Iters THEN Claim ELSE -1, calls |-> IF sc.sink \in Custom THEN calls ELSE -1, ask |-> ask,
   ann |-> <<ann[1], ES, IF sc.src = "val" THEN -1 ELSE ann[2], ann[1], ES>>, dr |-> dr, kd |-> <<>>, cl |-> cl, same |-> 1, rz |-> 1,
   mem |-> mem, mem2 |-> <<>>]

Outcome == <<"T", sc.src, sc.sink, sc.n, sc.m, sc.f, sc.fk,
             Event.res, Len(out), dr, IF sc.sink \in Custom THEN calls ELSE -1, IF sc.sink \in Custom /\ calls = 1 THEN ann ELSE <<0, 0>>, Cardinality(live), ask>>

Finish == pc = "end" /\ pc' = "done" /\ (Emit => PrintT(ToString(Outcome))) /\ UNCHANGED <<sc, i, loc, mem, live, dr, cl, calls, ann, out, arm, unw, ask>>

Next == Call \/ Room \/ Refused \/ Left \/ Null \/ WriteLump \/ Clone \/ Deliver \/ Stop \/ Full \/ Undo \/ Written \/ Late \/ Owned \/ Unwound \/ Finish

Spec == Init /\ [][Next]_vars

---------------------------------------------------------------------------
(* in every state                                                           *)

(* no value is destroyed twice, except what with_emplacable_for was lent *)
Once == sc.src = "lend" \/ \A x \in Rng(dr) : Cnt(dr, x) = 1
(* what is at its destination has its place there *)
Placed == \A k \in P : loc[k] = "dst" => k <= Claim
(* a destroyed part is nowhere else *)
Dead == sc.src = "lend" \/ \A k \in P : (loc[k] = "dead") = (Name(k) \in Rng(dr))
(* memory of a receiver holds only what was announced *)
Within == calls > 0 => ann[1] = Blk(99)
Safe == Once /\ Placed /\ Dead /\ Within /\ Replay(<<>>, mem).ok

(* at the end the contract holds *)
Known == IF sc.src = "lend" THEN {"destroyed again as the lending closure unwinds"} ELSE {}
Holds == pc = "end" => {x[1] : x \in EmpBroken(Event)} \subseteq Known
(* every scenario ends *)
Ends == pc # "done" => ENABLED Next
=============================================================================
