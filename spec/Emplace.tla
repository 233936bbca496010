------------------------------ MODULE Emplace -------------------------------
(***************************************************************************)
(* The contract of emplacables and of the by-value helpers: what one       *)
(* scenario "make a value, consume it" must have looked like.  Properties  *)
(* C13, C14, C15, C17, C18.                                                *)
(*                                                                         *)
(* An event names the source and the receiver, the fault injected, the     *)
(* value x that was to be delivered (its parts' identities, its size and   *)
(* alignment), what came out, the identities destroyed (dr) and, later,    *)
(* those destroyed with what stayed behind (kd), the clones made (cl), how *)
(* often and with which layout the receiver was called, and the allocator  *)
(* traffic.                                                                *)
(***************************************************************************)
EXTENDS Common

Lending == {"wef:drop", "wef:forget", "wef:null", "wef:none", "wef:pan0"}
Dropping == {"drop", "null", "wef:drop", "wef:null", "wefu"}
Forgetting == {"forget", "none", "wef:forget", "wef:none"}
(* never run: leaked whole, or taken apart and its closure dropped *)
Kept == {"keep", "fn", "wef:keep", "wef:fn"}
Composite == {"arr", "arru", "arrn", "arrb", "arrc", "iter", "iterb", "iterc", "iterl", "iterp", "nest", "uns", "unsb", "unsc",
              "valu", "vals", "bytes", "bytesr", "bytesc", "many", "manyb", "manyc"}
(* sources whose parts live in storage of their own, given up only by delivering or dropping *)
Scattered == {"arrb", "arrc", "iter", "iterb", "iterc", "iterl", "iterp", "nest", "cus",
              "unsc", "bytesc", "many", "manyb", "manyc"}
Lent == {"wefp", "weff", "wefu", "wef:box", "wef:pin", "wef:rc", "wef:rcp", "wef:rci", "wef:arc", "wef:arcp", "wef:arci",
         "wef:vec", "wef:vec2", "wef:mem"} \cup Lending
Leaving == {"pop", "rem"}
(* sources of which the harness counts how often they are asked for a part *)
Counted == {"cus", "unsc", "bytesc", "arrc", "iterc", "manyc"}
Custom == {"mem", "null", "none", "pan0"}

EmpAct(e) == Len(e.x[1].c)
EmpParts(e) == IF e.src \in {"cus", "unsc", "bytesc"} THEN 1 ELSE EmpAct(e)
EmpLong(e) == e.src = "iterl" /\ e.claim > EmpAct(e)      \* claims more than it has
EmpShort(e) == e.src = "iterl" /\ e.claim < EmpAct(e)
EmpZst(e) == e.ty \in {"lz", "lz32", "z4", "z32"}

(* the value a receiver is entitled to *)
EmpWant(e) ==
  LET x == e.x[1]
  IN IF EmpShort(e)
     THEN [x EXCEPT !.c = Pre(@, e.claim), !.s = e.claim * (x.s \div Len(x.c))]
     ELSE x

EmpIds(e) == IF e.tr = 0 THEN <<>>
             ELSE IF e.src = "ref" THEN [k \in DOMAIN e.cl |-> e.cl[k][2]]
             ELSE e.x[1].c

(* what became of the value's identities, all in all *)
EmpGone(e) == IF e.src \in Leaving /\ ~EmpZst(e)
              THEN e.dr \o SelectSeq(e.kd, LAMBDA d : d \in Rng(EmpIds(e)))
              ELSE e.dr

EmpCause(e) == e.f # "none" \/ e.sink \in {"pan0", "wef:pan0", "wefp", "weff"} \/ EmpLong(e)

(* the layout that must be announced *)
EmpMeta(e) == IF e.src \in {"arrn", "val"} \/ e.ty \in {"v8", "v300", "z4", "z32", "d"} THEN -1
              ELSE IF e.src = "nest" THEN e.claim
              ELSE IF EmpLong(e) \/ EmpShort(e) THEN e.claim
              ELSE Len(e.x[1].c)
EmpSize(e) == IF EmpLong(e) THEN (IF EmpAct(e) = 0 THEN e.ann[1] ELSE e.claim * (e.x[1].s \div EmpAct(e)))
              ELSE IF EmpShort(e) THEN EmpWant(e).s ELSE e.x[1].s

(* a closure that was lent the value unwinds *)
EmpLentUnwind(e) == e.h = 1 /\ e.res = "panic" /\ e.sink \in Lent

EmpBroken(e) ==
  LET ids == EmpIds(e)
      gone == EmpGone(e)
      ok == e.res = "ok"
      delivers == e.sink \notin Dropping \cup Forgetting \cup Kept \cup {"pan0", "wef:pan0", "wefp"}
      comp == IF e.src \in Composite THEN {"C15"} ELSE {}
      fam(P) == IF e.h = 1 THEN {"C17"} ELSE P \cup comp
      led == Replay(<<>>, e.mem \o e.mem2)
  IN V(ok \/ EmpCause(e), "unwinds without cause", fam({"C13", "C14"}))
     \cup V(EmpLong(e) /\ delivers => ~ok, "lying length accepted", fam({"C15"}))
     \cup V(e.out # <<>> => Len(e.out) = 1 /\ e.out[1] = EmpWant(e), "delivered", fam({"C13", "C18"}))
     \cup V(ok /\ delivers => Len(e.out) = 1, "not delivered", fam({"C13"}))
     \cup V(~delivers => e.out = <<>>, "delivered without a receiver", fam({"C13"}))
     \cup V(ok /\ e.src = "ref" /\ delivers /\ e.tr = 1 => Len(e.cl) = EmpAct(e), "cloned", fam({"C13"}))
     \cup V(e.src = "ref" /\ ~EmpZst(e) => Cardinality({c[1] : c \in Rng(e.cl)}) = Len(e.cl), "cloned twice", fam({"C13"}))
     \* --- ownership
     \cup V(ok /\ delivers => BagEQ(gone, ids), "owned once", fam({"C13", "C14", "C02"}))
     \cup V(ok /\ e.sink \in Dropping => BagEQ(gone, ids), "dropping", fam({"C14"}))
     \cup V(ok /\ e.sink \in Forgetting => gone = <<>>, "forgetting", fam({"C14"}))
     \cup V(e.sink \in Kept => BagLE(gone, ids), "never run", fam({"C14"}))
     \cup V(~ok /\ ~EmpLentUnwind(e) => BagLE(gone, ids), "destroyed twice", fam({"C14"}))
     \* the known weakness of with_emplacable_for: its argument is destroyed once more when the closure unwinds
     \cup V(EmpLentUnwind(e) => BagLE(gone, ids), "destroyed again as the lending closure unwinds", fam({"C14"}))
     \cup V(EmpLentUnwind(e) => Len(gone) <= 2 * Len(ids), "destroyed three times", fam({"C14"}))
     \cup V(e.src \in Leaving => e.same = 1, "neighbours", fam({"C13", "C18"}) \cup (IF ok THEN {} ELSE {"C03"}))
     \cup V(e.src \notin Leaving => e.same = 1, "receiver state", fam({"C13", "C18"}))
     \cup V(e.src \in Leaving /\ ~EmpZst(e) => Cardinality(Rng(e.kd)) = Len(e.kd), "neighbours destroyed twice", fam({"C14", "C02"}) \cup (IF ok THEN {} ELSE {"C03"}))
     \* --- memory
     \cup V(led.ok, "block layouts", fam({"C14", "C07"}) \cup {"C07"})
     \cup V(ok /\ e.sink \notin Kept /\ ~(e.sink \in Forgetting /\ e.src \in Scattered) => DOMAIN led.blk = {}, "source storage leaked", fam({"C14"}) \cup {"C07"})
     \* what was got for a value whose making unwinds is given back
     \cup V(~ok /\ delivers /\ (e.f \in {"p0", "p1", "p2", "iter", "clone"} \/ (EmpLong(e) /\ e.f = "none")) =>
              \A i \in DOMAIN led.blk : led.blk[i].l = 0, "memory of the library's own leaked", fam({"C13"}) \cup {"C07"})
     \* --- protocol
     \cup V(e.calls <= 1, "receiver called twice", fam({"C18"}))
     \cup V(ok /\ e.sink \in Custom => e.calls = 1, "receiver not called", fam({"C18"}))
     \cup V(e.sink \in Dropping \cup Forgetting => e.cl = <<>>, "made for nobody", fam({"C14", "C18"}))
     \* whoever makes or gives up a value was asked for it, once
     \cup V(e.src \in Counted /\ ok /\ (delivers \/ e.sink \in Dropping) => e.ask = EmpParts(e), "asked for", fam({"C14", "C18"}))
     \cup V(e.src \in Counted => e.ask <= EmpParts(e), "asked twice", fam({"C14", "C18"}))
     \cup V(e.sink \in Custom /\ e.calls = 1 =>
              /\ e.ann[1] = EmpSize(e) /\ e.ann[2] = e.x[1].a /\ e.ann[3] = EmpMeta(e)
              /\ e.ann[4] = e.ann[1] /\ e.ann[5] = e.ann[2],
            "announced", fam({"C18"}))
     \cup V(e.rz = 1, "outside its memory", fam({"C18"}) \cup {"C04"})
=============================================================================
