------------------------------ MODULE Conform --------------------------------
(***************************************************************************)
(* Replays a recorded trace against the contract, one event per step.      *)
(***************************************************************************)
EXTENDS UVec, Emplace, UIter, Amort, Order, Json, IOUtils

CONSTANT Prop
TraceFile == IOEnv.TRACE
Trace == ndJsonDeserialize(TraceFile)

VARIABLES l, st

Report(bs, ev) ==
  LET rel == {b \in bs : Prop \in b[2]}
      other == {b \in bs : Prop \notin b[2]}
  IN /\ rel # {} => PrintT(<<"VIOL", l, {b[1] : b \in rel}>>)
     /\ other # {} => PrintT(<<"OTHER", l, {b : b \in other}>>)

Init == l = 1 /\ st = [ep |-> -1]

Step(ev) ==
  CASE ev.t = "new" -> st' = St0(ev)
    [] ev.t = "op" -> Report(Broken(st, ev), ev) /\ st' = Adopt(st, ev)
    [] ev.t = "end" -> Report(IF "vs" \in DOMAIN st THEN BrokenEnd(st, ev) ELSE {}, ev) /\ st' = [ep |-> -1]
    [] ev.t = "emp" -> Report(EmpBroken(ev), ev) /\ st' = [ep |-> -1]
    [] ev.t = "it" -> Report(IterBroken(ev), ev) /\ st' = [ep |-> -1]
    [] ev.t = "run" -> Report(AmortBroken(ev), ev) /\ st' = [ep |-> -1]
    [] ev.t = "cmp" -> Report(OrdBroken(ev), ev) /\ st' = [ep |-> -1]

Next == l <= Len(Trace) /\ Step(Trace[l]) /\ l' = l + 1

Spec == Init /\ [][Next]_<<l, st>>

Done == TLCGet("stats").diameter = Len(Trace) + 1
=============================================================================
