------------------------------- MODULE Amort --------------------------------
(***************************************************************************)
(* C10: the blocks obtained during a long run of additions at the end add  *)
(* up to at most a constant factor of what the elements need in the end:   *)
(* their bytes and, unless the element type is sized, one fixed-size entry *)
(* each.  Raising the alignment may re-pad everything once.                *)
(***************************************************************************)
EXTENDS Common

AmortFactor == 12
AmortEntry == 32
AmortSlack == 4096

AmortNeed(e) == e.bl + AmortEntry * e.len
(* and at every earlier moment: pts has <<length, byte length, total, raises>> *)
AmortAt(p) == p[3] <= (AmortFactor + p[4]) * (p[2] + AmortEntry * p[1]) + AmortSlack

AmortBroken(e) ==
  V(e.ok = 1 /\ e.len = e.count, "additions", {"C10", "C01"})
  \cup V(e.tot <= (AmortFactor + e.raises) * AmortNeed(e) + AmortSlack, "total allocation", {"C10"})
  \cup V(\A k \in DOMAIN e.pts : AmortAt(e.pts[k]), "total allocation so far", {"C10"})
  \cup V(e.rz = 1, "outside storage", {"C10", "C04"})
=============================================================================
