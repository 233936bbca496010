------------------------------ MODULE AmortImpl ------------------------------
(***************************************************************************)
(* Growing the byte buffer, for any sizes and any number of additions: the *)
(* rule of try_reserve_for_element (double if that is more than needed,    *)
(* pad to the alignment) keeps the total of all blocks within a constant   *)
(* factor of the bytes in use.  Ind is inductive: Apalache checks that it  *)
(* holds at first, that every step preserves it (from any state of         *)
(* unbounded integers) and that it implies Bounded.                        *)
(*                                                                         *)
(* While no alignment is raised; raising it re-pads the elements once.     *)
(***************************************************************************)
EXTENDS Integers

CONSTANTS
  \* @type: Int;
  Al,
  \* @type: Str;
  Rule         \* "double", or "exact": what goes wrong without doubling (see tools/mutants.py)
VARIABLES
  \* @type: Int;
  bl,          \* bytes in use
  \* @type: Int;
  bc,          \* byte capacity
  \* @type: Int;
  tot,         \* the sizes of the blocks obtained so far, added up
  \* @type: Int;
  n            \* blocks obtained so far

Als == {1, 2, 4, 8, 16, 32, 64, 128}
ConstInit == Al \in Als /\ Rule = "double"
ConstInitExact == Al \in Als /\ Rule = "exact"

Init == /\ bc \in Nat /\ bl \in Nat /\ bl <= bc /\ tot = 0 /\ n = 0

(* an addition of s bytes; the padded sum of capacity and what is added *)
Add(s, p) ==
  LET free == bc - bl
      needed == IF s > free THEN s - free ELSE 0
      more == IF needed > 0 /\ bc > needed /\ Rule = "double" THEN bc ELSE needed
  IN /\ s >= 0 /\ p >= 0 /\ p < Al
     /\ IF needed = 0
        THEN p = 0 /\ bc' = bc /\ tot' = tot /\ n' = n
        ELSE bc' = bc + more + p /\ tot' = tot + bc' /\ n' = n + 1
     /\ bl' = bl + s

Next == \E s \in Nat, p \in 0..127 : Add(s, p)

(* the invariant: geometric growth, and never more than twice what is needed *)
Ind ==
  /\ bl \in Nat /\ bc \in Nat /\ tot \in Nat /\ n \in Nat
  /\ bl <= bc
  /\ tot <= 2 * bc
  /\ (n = 0 => tot = 0)
  /\ (n > 0 => bc <= 2 * bl + Al)
IndInit == Ind

Bounded == tot <= 4 * bl + 2 * Al
=============================================================================
