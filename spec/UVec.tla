-------------------------------- MODULE UVec --------------------------------
(***************************************************************************)
(* The contract of UnsizedVec: what a user may rely on, as a function from *)
(* (abstract state, event) to the set of clauses the event breaks.         *)
(*                                                                         *)
(* An event is one call of the public interface, with its arguments, the   *)
(* fault (if any) injected into user code or the allocator during it, and  *)
(* everything observable about it: result, values handed out, destructors  *)
(* run, allocator traffic, and the full observation of every vec after it. *)
(*                                                                         *)
(* The same operators judge                                                *)
(*   - every transition of the design model (UVecImpl), and                *)
(*   - every event recorded from the real code (UVecTrace).                *)
(*                                                                         *)
(* Nothing here says how storage is laid out or how capacities grow: only  *)
(* the clauses of the properties C01..C08, C12, C13, C14, C16.             *)
(***************************************************************************)
EXTENDS Common

---------------------------------------------------------------------------
(* abstract state                                                          *)

None == [ex |-> 0]
St0(ev) == [vs |-> <<None, None, None>>, blk |-> <<>>,
            pv |-> ev.pv, tr |-> ev.tr, k |-> ev.k,
            unw |-> FALSE,   \* user code has unwound
            lky |-> FALSE,   \* an operation that had accepted values unwound: it may have leaked
            fl |-> FALSE,    \* a request has been refused
            shr |-> FALSE,   \* something was shrunk
            rsv |-> FALSE,   \* something was reserved
            cnv |-> FALSE]   \* a conversion took place

Proj(es) == [k \in DOMAIN es |-> [c |-> es[k].c, s |-> es[k].s, a |-> es[k].a]]
Elems(o) == IF o.ex = 1 THEN Proj(o.e) ELSE <<>>
Place(es) == [k \in DOMAIN es |-> <<es[k].b, es[k].o>>]

(* identities whose destruction is observable *)
Ids(st, es) == IF st.tr = 1 THEN Flat(es) ELSE <<>>

Creates == {"new", "default", "wc", "wcb", "wcba", "from", "collect", "mac"}
Adds    == {"push", "ins"}
Takes   == {"pop", "rem"}
Try     == {"tres", "trese", "tresb", "treseb", "tresba", "treseba"}
Infal   == {"res", "rese", "resb", "reseb", "resba", "reseba"}
Reserve == Try \cup Infal
WithCap == {"wc", "wcb", "wcba"}
Exact   == {"rese", "reseb", "reseba", "trese", "treseb", "treseba"} \cup WithCap
HasB    == {"resb", "reseb", "resba", "reseba", "tresb", "treseb", "tresba", "treseba", "wcb", "wcba"}
HasA    == {"resba", "reseba", "tresba", "treseba", "wcba"}
Shrink  == {"stf", "st", "stb", "stba"}
Conv    == {"from", "clone", "rt", "ext", "collect", "mac"}

Refused(e) == \E k \in DOMAIN e.mem : e.mem[k].t = "F" /\ e.mem[k].l = 1
LibMem(e) == SelectSeq(e.mem, LAMBDA m : m.l = 1 /\ m.t \in {"A", "R"})

---------------------------------------------------------------------------
(* allowed outcomes: contents of the three vecs afterwards, the identities *)
(* destroyed, and which of those may instead be leaked.  `q` is the set of *)
(* results the outcome goes with.                                          *)

Has(s) == [x |-> 1, s |-> s]
Gone == [x |-> 0, s |-> <<>>]
OC(vs, dr, lk, q) == [vs |-> vs, dr |-> dr, lk |-> lk, q |-> q]

Cur(st) == [k \in 1..3 |-> IF st.vs[k].ex = 1 THEN Has(Elems(st.vs[k])) ELSE Gone]
Same(st) == OC(Cur(st), <<>>, <<>>, {})

ClonesOf(S, cl) == [k \in DOMAIN S |-> [S[k] EXCEPT !.c = <<cl[k][2]>>]]
NewIds(cl) == [k \in DOMAIN cl |-> cl[k][2]]

Alive(src) == src \in {"box", "cus", "uns", "unse", "arr", "vec", "iter", "ref", "emp"}

Outcomes(st, e) ==
  LET cur == Cur(st)
      S == cur[e.v].s
      X == Proj(e.x)
      xi == Ids(st, X)
      n == Len(S)
      Put(s) == [cur EXCEPT ![e.v] = Has(s)]
      Gone1 == [cur EXCEPT ![e.v] = Gone]
      fail == {"panic"}
  IN CASE e.op \in {"new", "default", "wc", "wcb", "wcba"} ->
            {OC(Put(<<>>), <<>>, <<>>, {"ok"})}
            \cup (IF e.op \in WithCap THEN {OC(cur, <<>>, <<>>, fail)} ELSE {})
       [] e.op = "from" ->
            {OC(Put(X), <<>>, <<>>, {"ok"}), OC(cur, xi, xi, fail)}
       [] e.op = "clone" ->
            (IF Len(e.cl) = n /\ \A k \in 1..n : S[k].c = <<e.cl[k][1]>>
             THEN {OC([cur EXCEPT ![e.w] = Has(ClonesOf(S, e.cl))],
                       IF e.src = "from" THEN Ids(st, cur[e.w].s) ELSE <<>>, <<>>, {"ok"})} ELSE {})
            \cup {OC(cur, IF st.tr = 1 THEN NewIds(e.cl) ELSE <<>>,
                     IF e.f = "clone" THEN <<>> ELSE IF st.tr = 1 THEN NewIds(e.cl) ELSE <<>>, fail)}
       [] e.op = "rt" -> {OC(cur, <<>>, <<>>, {"ok"})}
       [] e.op \in Adds ->
            LET i == IF e.op = "push" THEN n ELSE e.i
                added == Put(InsAt(S, i, X[1]))
                cli == IF st.tr = 1 THEN NewIds(e.cl) ELSE <<>>
            IN IF e.op = "ins" /\ e.i > n
               THEN {OC(cur, IF e.src = "ref" THEN <<>> ELSE xi, <<>>, fail)}
               ELSE IF Len(X) # 1 THEN {}
               ELSE {OC(added, <<>>, <<>>, {"ok"})}
                 \cup (CASE e.f \in {"p0", "p1", "p2"} -> {OC(cur, xi, <<>>, fail)}
                         [] e.f = "p3" -> {OC(added, <<>>, <<>>, fail), OC(cur, xi, xi, fail)}
                         [] e.f = "clone" -> {OC(cur, cli, cli, fail)}
                         [] Refused(e) -> {OC(cur, xi, IF Alive(e.src) THEN xi ELSE <<>>, fail)}
                         [] OTHER -> {})
       [] e.op \in Takes ->
            LET i == IF e.op = "pop" THEN n - 1 ELSE e.i
            IN IF n = 0 /\ e.op = "pop" THEN {OC(cur, <<>>, <<>>, {"none"})}
               ELSE IF i >= n THEN {OC(cur, <<>>, <<>>, fail)}
               ELSE LET x == S[i + 1]
                        li == Ids(st, <<x>>)
                        rest == Put(RemAt(S, i))
                        dst == cur[e.w].s
                        moved == [rest EXCEPT ![e.w] = Has(InsAt(dst, IF e.src = "slot" THEN Len(dst) ELSE e.wi, x))]
                    IN (CASE e.src \in {"forget", "none"} -> {OC(rest, <<>>, <<>>, {"ok"})}
                          (* an emplacable that never runs: the element stays, or goes, and may leak *)
                          [] e.src \in {"keep", "fn"} -> {OC(cur, <<>>, <<>>, {"ok"}), OC(rest, li, li, {"ok"})}
                          [] e.src \in {"slot", "slotins"} -> {OC(moved, <<>>, <<>>, {"ok"})}
                          [] e.src = "pan0" -> {}
                          [] OTHER -> {OC(rest, li, <<>>, {"ok"})})
                       \cup (IF e.src = "pan0" \/ Refused(e)
                             THEN {OC(cur, <<>>, <<>>, fail)}
                                  (* a removal gives its element up when the receiver asks for it, a pop before *)
                                  \cup (IF e.op = "rem" /\ e.src = "pan0" THEN {} ELSE {OC(rest, li, li, fail)})
                             ELSE {})
                       \cup (IF e.f = "dtor" THEN {OC(rest, li, li, fail)} ELSE {})
       [] e.op = "set" ->
            IF Len(X) # 1 THEN {}
            ELSE {OC(Put([S EXCEPT ![e.i + 1] = X[1]]), Ids(st, <<S[e.i + 1]>>), <<>>, {"ok"})}
       [] e.op = "get" ->
            {OC(cur, <<>>, <<>>,
                IF e.i < n THEN {"ok"} ELSE IF e.src \in {"idx", "idxm"} THEN fail ELSE {"none"})}
       [] e.op = "ext" ->
            {OC(Put(S \o X), <<>>, <<>>, {"ok"})}
            \cup (IF e.f = "iter" THEN {OC(Put(S \o Pre(X, e.fk - 1)), <<>>, <<>>, fail)} ELSE {})
            \cup (IF Refused(e)
                  THEN {OC(Put(S \o Pre(X, j)), IF j < Len(X) THEN Ids(st, <<X[j + 1]>>) ELSE <<>>,
                           IF j < Len(X) THEN Ids(st, <<X[j + 1]>>) ELSE <<>>, fail) : j \in 0..Len(X)} ELSE {})
       [] e.op \in {"collect", "mac"} ->
            {OC(Put(X), <<>>, <<>>, {"ok"})}
            \cup (IF e.f = "iter" THEN {OC(cur, Ids(st, Pre(X, e.fk - 1)), <<>>, fail)} ELSE {})
            \cup (IF Refused(e)
                  THEN {OC(cur, Ids(st, Pre(X, Min2(j + 1, Len(X)))),
                           IF j < Len(X) THEN Ids(st, <<X[j + 1]>>) ELSE <<>>, fail) : j \in 0..Len(X)} ELSE {})
       [] e.op = "drop" ->
            {OC(Gone1, Ids(st, S), <<>>, {"ok"})}
            \cup (IF e.f = "dtor" THEN {OC(Gone1, Ids(st, S), Ids(st, S), fail)} ELSE {})
       [] e.op \in Try -> {OC(cur, <<>>, <<>>, {"ok", "err"})}
       [] e.op \in Infal -> {OC(cur, <<>>, <<>>, {"ok", "panic"})}
       [] e.op \in Shrink -> {OC(cur, <<>>, <<>>, IF Refused(e) THEN {"ok", "panic"} ELSE {"ok"})}
       [] OTHER -> {}

After(e) == [k \in 1..3 |-> IF e.ps[k].ex = 0 THEN Gone ELSE IF e.ps[k].ex = 1 THEN Has(Elems(e.ps[k])) ELSE [x |-> 2, s |-> <<>>]]

DropsOk(dr, o) == BagLE(dr, o.dr) /\ BagLE(Minus(o.dr, dr), o.lk)

---------------------------------------------------------------------------
(* which values are expected to come out                                   *)

Outs(st, e) ==
  LET S == Elems(st.vs[e.v]) IN
  CASE e.op = "get" /\ e.res = "ok" -> <<S[e.i + 1]>>
    [] e.op \in Takes /\ e.res = "ok" /\ e.src \notin {"drop", "null", "forget", "none", "keep", "fn", "slot", "slotins", "pan0"} ->
         <<S[(IF e.op = "pop" THEN Len(S) - 1 ELSE e.i) + 1]>>
    [] e.op = "rt" /\ st.pv = "s" -> S
    [] OTHER -> <<>>

OutOk(st, e) ==
  LET w == Outs(st, e) IN
  e.res \notin {"ok", "none"} \/
     (Len(e.out) = Len(w) /\
      \A k \in DOMAIN w : e.out[k].c = w[k].c /\ e.out[k].s = w[k].s /\
                          ((e.src = "vec" /\ st.tr = 0) \/ e.out[k].a = w[k].a) /\ e.out[k].k = 1)

---------------------------------------------------------------------------
(* C04: the layout of one vec                                              *)

Aligned1(x) == x.a > 256 \/ x.m % x.a = 0
LayoutOk(st, o) ==
  LET es == o.e
      nz == SelectSeq(es, LAMBDA x : x.s > 0)
  IN /\ \A k \in DOMAIN es : Aligned1(es[k]) /\ es[k].a <= o.al
     /\ \A k \in DOMAIN nz : nz[k].b # 0
     /\ \A k \in 1..(Len(nz) - 1) :
          /\ nz[k + 1].b = nz[k].b
          /\ nz[k + 1].o >= nz[k].o + nz[k].s
          /\ st.pv \in {"a", "s"} => nz[k + 1].o = nz[k].o + nz[k].s
     /\ Sum([k \in DOMAIN es |-> es[k].s]) <= o.bl
     (* what the elements take, and no more than that *)
     /\ o.bl <= Sum([k \in DOMAIN es |-> IF st.pv = "u" THEN RoundUp(es[k].s, o.al) ELSE es[k].s])
     /\ nz # <<>> => nz[Len(nz)].o + nz[Len(nz)].s - nz[1].o <= o.bl
     /\ o.bl <= o.bc

---------------------------------------------------------------------------
(* C07 *)

Ledger(st, e) == FoldLeft(MemStep, [blk |-> st.blk, ok |-> TRUE], e.mem)

LibBlocks(blk) == {i \in DOMAIN blk : blk[i].l = 1}

(* the capacity a vec claims is backed by a block *)
Backed(st, o, blk) ==
  /\ o.bc > 0 => \E i \in LibBlocks(blk) :
        /\ blk[i].s >= o.bc
        /\ blk[i].a >= o.al
        /\ \A k \in DOMAIN o.e : o.e[k].s > 0 => o.e[k].b = i /\ o.e[k].o + o.e[k].s <= o.bc
  /\ st.pv # "s" /\ o.cap > 0 => \E i \in LibBlocks(blk) : blk[i].s >= o.cap

---------------------------------------------------------------------------
(* C05: additions within capacity                                          *)

RECURSIVE FitsAll(_, _, _, _, _)
FitsAll(st, o, X, len, bl) ==
  IF X = <<>> THEN TRUE
  ELSE LET x == Head(X)
           need == IF st.pv = "u" THEN RoundUp(x.s, o.al) ELSE x.s
       IN /\ len + 1 <= o.cap
          /\ x.a <= o.al
          /\ st.pv = "s" \/ bl + need <= o.bc
          /\ FitsAll(st, o, Tail(X), len + 1, bl + need)

SameCaps(o, p) == p.cap = o.cap /\ p.bc = o.bc /\ p.al = o.al

(* surviving elements stay in the block they were in *)
NoMove(o, p) ==
  \A i \in DOMAIN o.e : \A j \in DOMAIN p.e :
     (o.e[i].c = p.e[j].c /\ o.e[i].c # <<>> /\ o.e[i].s > 0) => o.e[i].b = p.e[j].b

ElemSize(o) == IF o.len = 0 THEN 0 ELSE o.bl \div o.len

---------------------------------------------------------------------------
(* labels: which properties an event speaks to                             *)

Rejected(st, e) ==
  LET n == Len(Elems(st.vs[e.v])) IN
     \/ e.op = "ins" /\ e.i > n
     \/ e.op = "rem" /\ e.i >= n
     \/ e.op = "get" /\ e.i >= n
     \/ e.op = "pop" /\ n = 0

Unwound(e) == e.res = "panic" /\ (e.f \notin {"none", "alloc", "allocs"} \/ e.src = "pan0")

(* a panic out of an operation that holds values may leak their storage *)
MayLeak(st, e) == e.res = "panic" /\ ~Rejected(st, e) /\ e.op \notin Reserve \cup Shrink \cup WithCap

Since(st) == (IF st.unw THEN {"C03"} ELSE {}) \cup (IF st.fl THEN {"C08"} ELSE {})
             \cup (IF st.shr THEN {"C06"} ELSE {}) \cup (IF st.cnv THEN {"C12"} ELSE {})

Fam(st, e) ==
  (CASE e.op \in Reserve \cup WithCap -> {"C01", "C05"}
     [] e.op \in Shrink -> {"C01", "C06"}
     [] e.op \in Conv -> {"C01", "C12"}
     [] OTHER -> {"C01"})
  \cup Since(st)
  \cup (IF Unwound(e) THEN {"C03"} ELSE {})
  \cup (IF Refused(e) \/ e.res = "err" THEN {"C08"} ELSE {})
  \cup (IF Rejected(st, e) THEN {"C16"} ELSE {})
  \cup (IF (e.op \in Adds /\ Alive(e.src)) \/ (e.op \in Takes /\ e.src # "drop") THEN {"C13"} ELSE {})

---------------------------------------------------------------------------
(* the clauses                                                             *)

Broken(st, e) ==
  LET o == st.vs[e.v]
      p == e.ps[e.v]
      fam == Fam(st, e)
      outs == Outcomes(st, e)
      aft == After(e)
      fit == {x \in outs : x.vs = aft}
      fitq == {x \in fit : e.res \in x.q}
      resOk == \E x \in outs : e.res \in x.q
      led == Ledger(st, e)
      live == {k \in 1..3 : e.ps[k].ex = 1}
      huge == e.n >= HUGE \/ (e.op \in HasB /\ e.b >= HUGE) \/ (e.op \in HasA /\ e.a >= HUGE)
      ok == e.res = "ok"
      both == o.ex = 1 /\ p.ex = 1
      fits == both /\ ok /\ e.op \in Adds \cup {"ext"} /\ (e.op = "ext" /\ e.b = 1 => e.a <= Len(e.x)) /\ FitsAll(st, o, Proj(e.x), o.len, o.bl)
      nb == IF st.pv = "s" THEN 1 ELSE 2
      o0 == IF o.ex = 1 THEN o ELSE [len |-> 0, bl |-> 0, cap |-> 0, bc |-> 0, al |-> 1]
      slack == IF st.pv = "u" THEN (p.bl - o0.bl) + 2 * p.al ELSE 0
      maxal == FoldLeft(LAMBDA acc, x : Max2(acc, x.a), 1, p.e)
      (* what each capacity promises, counted as the provider counts it *)
      needB == IF e.op \in HasB THEN e.b ELSE 0
  IN
  \* --- contents, results and ownership
     V(fit # {}, "contents", fam \cup (IF e.op \in Takes \/ Refused(e) THEN {"C02"} ELSE {}))
  \cup V(fit = {} \/ fitq # {}, "result", fam \cup {"C02"})
  \cup V(fitq = {} \/ \E x \in fitq : DropsOk(e.dr, x), "ownership",
         {"C02", "C14"} \cup fam)
  \cup V(~resOk \/ OutOk(st, e), "delivered", {"C02", "C13", "C18"} \cup fam)
  \cup V(\A k \in live : e.ps[k].len = Len(e.ps[k].e) /\ (e.ps[k].emp = 1) = (e.ps[k].len = 0), "length", {"C01"} \cup fam)
  \cup V(\A k \in live : e.ps[k].it = 1, "iteration", {"C01", "C09"})
  \cup V(\A k \in live : e.ps[k].gn = 1, "bounds", {"C16"})
  \cup V(\A k \in 1..3 : e.ps[k].ex # 2, "observable", {"C01", "C04"} \cup fam)
  \* --- C04
  \cup V(\A k \in live : LayoutOk(st, e.ps[k]), "layout", {"C04"} \cup Since(st)
         \cup (IF e.op \in Shrink THEN {"C06"} ELSE {}) \cup (IF e.op \in Conv THEN {"C12"} ELSE {})
         \cup (IF e.op \in Reserve THEN {"C05"} ELSE {})
         \cup (IF Refused(e) THEN {"C08"} ELSE {}) \cup (IF Unwound(e) THEN {"C03"} ELSE {}))
  \cup V(e.rz = 1, "outside storage", {"C04", "C05", "C18"} \cup fam)
  (* an alignment known from the type is reported as it is, always *)
  \cup V(\A k \in live : st.pv # "u" => \A i \in DOMAIN e.ps[k].e : e.ps[k].e[i].a = e.ps[k].al, "alignment of the type", {"C04"})
  \cup V(both /\ st.pv # "u" => p.al = o.al, "alignment of the type", {"C04"})
  \* --- C07
  \cup V(led.ok, "block layouts", {"C07"} \cup (IF e.op \in Conv THEN {"C12"} ELSE {}))
  \cup V(e.op \in {"new", "default"} => LibMem(e) = <<>>, "new allocates", {"C07"})
  \cup V(st.lky \/ MayLeak(st, e) \/ Cardinality(LibBlocks(led.blk)) <= nb * Cardinality(live), "blocks per vec", {"C07"})
  \cup V(\A k \in live : Backed(st, e.ps[k], led.blk), "capacity backed", {"C04", "C05", "C07", "C08"} \cup Since(st)
         \cup (IF e.op \in Conv THEN {"C12"} ELSE {}) \cup (IF e.op \in Shrink THEN {"C06"} ELSE {}))
  \* --- C05
  \cup V(fits => SameCaps(o, p) /\ NoMove(o, p), "fits, yet capacity changed", {"C05"})
  \cup V(fits /\ e.src \notin {"iter", "ref"} => LibMem(e) = <<>>, "fits, yet reallocated", {"C05"})
  \cup V(ok /\ e.op \in Reserve \cup WithCap /\ p.ex = 1 =>
           /\ p.cap >= Min2(HUGE, p.len + e.n)
           /\ st.k = "s0" \/ p.bc - p.bl >= needB
           /\ e.op \in HasA /\ st.pv = "u" => p.al >= e.a,
         "promise", {"C05", "C08"})
  \cup V(ok /\ p.ex = 1 /\ st.pv = "u" =>
           /\ e.op \in {"new", "default", "wc", "wcb"} => p.al = 8
           /\ e.op = "wcba" => p.al = e.a, "alignment to begin with", {"C05"})
  \cup V(both /\ e.op \in Reserve \cup Adds \cup {"ext"} /\ st.pv = "u" =>
           p.al <= FoldLeft(LAMBDA acc, x : Max2(acc, x.a), Max2(o.al, IF e.op \in HasA THEN e.a ELSE 1), e.x), "alignment raised", {"C05"})
  \cup V(both /\ ok /\ e.op \in Reserve /\ ~huge /\ o.len + e.n <= o.cap /\ needB <= o.bc - o.bl
             /\ (e.op \in HasA /\ st.pv = "u" => e.a <= o.al) =>
           SameCaps(o, p) /\ NoMove(o, p) /\ LibMem(e) = <<>>, "reserved anew", {"C05"})
  \cup V(both /\ e.op \in Reserve \cup Adds \cup {"ext"} => p.cap >= o.cap /\ p.bc >= o.bc /\ p.al >= o.al, "lowered", {"C05"})
  \cup V(ok /\ e.op \in Exact /\ p.ex = 1 /\ st.k # "s0" =>
           IF st.pv = "s"
           THEN LET es == IF p.cap = 0 THEN 1 ELSE p.bc \div p.cap
                IN p.bc <= Max2(o0.bc, Max2((p.len + e.n) * es, RoundUp(p.bl + needB, es)))
           ELSE /\ p.cap <= Max2(o0.cap, p.len + e.n)
                /\ p.bc <= Max2(o0.bc, o0.bl + needB) + slack,
         "exact", {"C05"})
  \* --- C06
  \cup V(both /\ e.op \in Shrink => p.cap <= o.cap /\ p.bc <= o.bc /\ p.al <= o.al, "shrink raises", {"C06"})
  \cup V(both /\ e.op \in Shrink =>
           /\ p.cap >= Max2(p.len, IF e.op = "stf" THEN 0 ELSE Min2(e.n, o.cap))
           /\ p.bc >= Max2(p.bl, IF e.op \in {"stb", "stba"} THEN Min2(e.b, o.bc) ELSE 0)
           /\ p.al >= Max2(maxal, IF e.op = "stba" THEN Min2(e.a, o.al) ELSE 1),
         "shrink below bound", {"C06"})
  \cup V(both /\ e.op = "stf" /\ ~Refused(e) /\ st.k # "s0" =>
           p.bc = p.bl /\ (st.pv = "u" => p.al = maxal /\ p.bl = Sum([k \in DOMAIN p.e |-> RoundUp(p.e[k].s, maxal)])),
         "shrink to fit", {"C06"})
  \cup V(both /\ e.op = "st" /\ ~Refused(e) =>
           /\ st.pv # "s" => p.bc = o.bc /\ p.al = o.al /\ Place(p.e) = Place(o.e)
           /\ o.cap > Max2(o.len, e.n) /\ st.k # "s0" => p.cap < o.cap,
         "shrink_to", {"C06"})
  \cup V(both /\ e.op \in Shrink /\ ~Refused(e) /\ st.k # "s0" =>
           LET n == IF e.op = "stf" THEN 0 ELSE Min2(e.n, o.cap)
               by == IF e.op \in {"stb", "stba"} THEN Min2(e.b, o.bc) ELSE 0
           IN IF st.pv = "s"
              THEN o.cap = 0 \/ p.cap <= Max2(p.len, Max2(n, RoundUp(by, o.bc \div o.cap) \div (o.bc \div o.cap)))
              ELSE /\ p.cap <= Max2(p.len, n)
                   /\ e.op # "st" => p.bc <= Max2(p.bl, RoundUp(by, p.al))
                   /\ e.op = "stb" => p.al = o.al
                   /\ e.op = "stba" /\ st.pv = "u" => p.al <= Max2(maxal, Min2(e.a, o.al)),
         "room kept", {"C06"})
  (* nothing above the bounds: nothing to do *)
  \cup V(both /\ e.op \in {"st", "stb", "stba"} /\ o.cap <= e.n /\ (e.op # "st" => o.bc <= e.b)
             /\ (e.op = "stba" /\ st.pv = "u" => o.al <= e.a) =>
           SameCaps(o, p) /\ Place(p.e) = Place(o.e) /\ LibMem(e) = <<>>, "shrunk for nothing", {"C06"})
  \* --- C08
  \cup V(e.op \in Try => e.res \in {"ok", "err"}, "try panics", {"C08"})
  \cup V(e.res = "err" => Refused(e) \/ huge, "error without failure", {"C08", "C05"})
  \cup V(e.res = "err" => (e.er = 2) = Refused(e), "error says which", {"C08"})
  \cup V(\A k \in DOMAIN e.om : \E j \in DOMAIN e.mem : e.mem[j].t = "F" /\ <<e.mem[j].s, e.mem[j].a>> = e.om[k],
         "allocation failure reported without one", {"C08"})
  \cup V(e.op \in Infal \cup WithCap /\ e.res = "panic" /\ Refused(e) => e.om # <<>>, "refusal not reported", {"C08"})
  \cup V(e.op \in Infal \cup WithCap /\ e.res = "panic" => Refused(e) \/ huge, "panic without failure", {"C08", "C05"})
  \cup V(e.op \in Adds \cup {"ext"} /\ e.res = "panic" /\ e.f = "none" => Refused(e) \/ Rejected(st, e), "panic without cause", fam)
  \cup V(both /\ e.res = "err" =>
           /\ p.cap >= o.cap /\ p.bc >= o.bc
           /\ st.pv # "s" => Place(p.e) = Place(o.e) /\ p.bc = o.bc /\ p.al = o.al, "error changed the vec", {"C08"})
  \* --- C12
  \cup V(e.op \in {"from", "rt"} /\ ok /\ p.ex = 1 /\ p.len > 0 /\ st.pv = "s" =>
           \A k \in DOMAIN p.e : p.e[k].s = 0 \/ (o.ex = 1 => p.e[k].b = o.e[k].b), "converting copies", {"C12"})
  \cup V(e.op = "rt" /\ st.pv = "s" => LibMem(e) = <<>> /\ both /\ SameCaps(o, p), "converting allocates", {"C12"})
  \cup V(e.op = "from" /\ ok => ~\E k \in DOMAIN e.mem : e.mem[k].t = "R" /\ e.mem[k].l = 1, "converting reallocates", {"C12"})
  \* --- C16
  \cup V(Rejected(st, e) /\ both => p = o, "rejected, yet changed", {"C16"})

Adopt(st, e) ==
  [st EXCEPT !.vs = [k \in 1..3 |-> IF e.ps[k].ex = 1 THEN e.ps[k] ELSE None],
             !.blk = Ledger(st, e).blk,
             !.unw = @ \/ Unwound(e),
             !.lky = @ \/ MayLeak(st, e),
             !.fl = @ \/ Refused(e) \/ e.res = "err",
             !.shr = @ \/ e.op \in Shrink,
             !.rsv = @ \/ e.op \in Reserve \cup WithCap,
             !.cnv = @ \/ e.op \in Conv]

(* the end of a history: everything gone *)
BrokenEnd(st, e) ==
  LET led == Ledger(st, e)
      lib == {i \in DOMAIN led.blk : led.blk[i].l = 1}
      arg == {i \in DOMAIN led.blk : led.blk[i].l = 0}
  IN V(led.ok, "block layouts", {"C07"})
     \cup V(st.lky \/ lib = {}, "leaked", {"C07"} \cup Since(st))
     \cup V(st.lky \/ arg = {}, "source storage leaked", {"C14", "C07"})

=============================================================================
