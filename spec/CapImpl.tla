------------------------------- MODULE CapImpl --------------------------------
(***************************************************************************)
(* The capacity arithmetic of a vec whose alignment is not known (the      *)
(* scheme "u" of UVecImpl), with unbounded numbers: what reserving, adding *)
(* and shrinking do to the byte length, the byte capacity and the          *)
(* alignment.  Where the elements lie is left out: realigning may make the *)
(* byte length anything that is possible at all.                           *)
(*                                                                         *)
(* Ind is an inductive invariant for Apalache: from any state of unbounded *)
(* integers that satisfies it, every call leads to one that does, and the  *)
(* call did what it promised (right).  UVecImpl has the same rules, with   *)
(* small numbers, and is compared with the real code.                      *)
(***************************************************************************)
EXTENDS Integers

CONSTANT
  \* @type: Str;
  Bug
VARIABLES
  \* @type: Int;
  bl,          \* byte length, padded
  \* @type: Int;
  bc,          \* byte capacity
  \* @type: Int;
  al,          \* alignment
  \* @type: Int;
  pr,          \* bytes promised and not yet used
  \* @type: Bool;
  right        \* the last call did as promised

vars == <<bl, bc, al, pr, right>>

ConstInit == Bug = "none"
ConstInitShort == Bug = "promise-short"
ConstInitDouble == Bug = "double-count"
ConstInitUnpadded == Bug = "cap-unpadded"
ConstInitForgets == Bug = "align-forgotten"
ConstInitOther == Bug = "bound-ignored"

(* three that divide one another stand for all: the arithmetic uses no more of them *)
Als == {1, 2, 4}
Max2(a, b) == IF a >= b THEN a ELSE b
Min2(a, b) == IF a <= b THEN a ELSE b
Pad(n, a) == IF a = 1 THEN n
             ELSE IF a = 2 THEN ((n + 1) \div 2) * 2
             ELSE ((n + 3) \div 4) * 4

Init == bl = 0 /\ bc = 0 /\ al = 1 /\ pr = 0 /\ right = TRUE

(* what the byte length may be at the alignment a2 >= al *)
Up(l, a2) == IF a2 = al THEN l = bl ELSE l >= bl /\ l = Pad(l, a2) /\ (bl = 0 => l = 0)

(* try_reserve_additional_bytes_align *)
More(n, a, l) ==
  LET a2 == Max2(al, a)
      cap == IF Bug = "double-count" THEN Pad(bc + (l - bl) + n + bl, a2) ELSE Pad(Pad(bc + (l - bl), a2) + n, a2)
  IN [al |-> IF Bug = "align-forgotten" /\ cap = 0 THEN al ELSE a2, bc |-> IF al = a2 /\ n = 0 THEN bc ELSE cap]

(* reserve_capacity_bytes_align: doubling, unless the allocator refuses that *)
Reserve(by, a, l, exact, refused) ==
  LET needed == IF Bug = "promise-short" THEN Max2(0, by - bc) ELSE Max2(0, by - (bc - bl))
      more == IF exact \/ refused \/ needed = 0 THEN needed ELSE Max2(needed, bc)
      r == More(more, a, l)
      spare == Max2(bc - bl, by)
  IN /\ by >= 0 /\ a \in Als /\ Up(l, Max2(al, a))
     /\ bl' = l /\ bc' = r.bc /\ al' = r.al
     /\ pr' = Max2(pr, by)
     /\ right' = /\ bc' >= bc /\ al' >= al /\ al' >= a
                 /\ bc' - bl' >= by
                 /\ exact => bc' <= Pad(Pad(bc + (l - bl), al') + needed, al') /\ bc' - bl' <= spare + 2 * al'

(* an element of size s and alignment a; l: the byte length once realigned, d: what it adds *)
Push(s, a, l, refused) ==
  LET needed == Max2(0, s - (bc - bl))
      more == IF needed > 0 /\ bc > needed /\ ~refused THEN bc ELSE needed
      r == More(more, a, l)
      d == Pad(s, r.al)
  IN /\ s >= 0 /\ a \in Als /\ s = Pad(s, a) /\ Up(l, Max2(al, a))
     /\ al' = r.al /\ bc' = r.bc /\ bl' = l + d
     \* what is used of a promise
     /\ pr' = IF a <= al THEN Max2(0, pr - d) ELSE 0
     /\ right' = /\ bc' >= bl' /\ bc' >= bc /\ al' >= a /\ al' >= al
                 \* within the capacities nothing grows
                 /\ (a <= al /\ s <= bc - bl) => (bc' = bc /\ al' = al)

Pop(d) == /\ d >= 0 /\ d <= bl /\ d = Pad(d, al)
          /\ bl' = bl - d /\ right' = TRUE /\ UNCHANGED <<bc, al, pr>>

(* shrink_capacity_bytes_align_to; m: the alignment the elements need, l: the byte length once realigned *)
Shrink(by, a, m, l) ==
  LET a2 == Max2(Min2(a, al), m)
      cap == IF Bug = "cap-unpadded" THEN Max2(Min2(by, bc), l)
             ELSE IF Bug = "bound-ignored" THEN l
             ELSE Max2(Pad(Min2(by, bc), a2), l)
  IN /\ by >= 0 /\ a \in Als /\ m \in Als /\ m <= al
     /\ IF a2 = al THEN l = bl ELSE l >= 0 /\ l <= bl /\ l = Pad(l, a2)
     /\ bl' = l /\ bc' = cap /\ al' = a2 /\ pr' = 0
     /\ right' = /\ bc' <= bc /\ al' <= al
                 /\ bc' >= bl' /\ bc' >= Min2(by, bc)
                 /\ al' >= m /\ al' >= Min2(a, al)
                 /\ (by = 0 => bc' = bl') /\ (a = 1 => al' = m)

Reserving == \E by \in Nat, a \in Als, l \in Nat, x \in BOOLEAN, y \in BOOLEAN : Reserve(by, a, l, x, y)
Pushing == \E s \in Nat, a \in Als, l \in Nat, y \in BOOLEAN : Push(s, a, l, y)
Popping == \E d \in Nat : Pop(d)
Shrinking == \E by \in Nat, a \in Als, m \in Als, l \in Nat : Shrink(by, a, m, l)
Next == Reserving \/ Pushing \/ Popping \/ Shrinking

Ind ==
  /\ bl \in Nat /\ bc \in Nat /\ pr \in Nat /\ al \in Als /\ right \in BOOLEAN
  /\ bl <= bc
  /\ bl = Pad(bl, al) /\ bc = Pad(bc, al)
  /\ pr <= bc - bl
  /\ right
IndInit == Ind

Promised == right /\ bl <= bc /\ pr <= bc - bl
=============================================================================
