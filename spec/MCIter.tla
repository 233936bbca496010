-------------------------------- MODULE MCIter -------------------------------
(* Bounds for model-checking UIterImpl; sh and nc as in MCVec.               *)
EXTENDS UIterImpl
Sh(s, a, sh, nc) == [s |-> s, a |-> a, sh |-> sh, nc |-> nc]
ShapesA2 == <<Sh(2, 2, 0, 1), Sh(6, 2, 0, 3), Sh(0, 2, 0, 0)>>
ShapesU == <<Sh(1, 1, 0, 0), Sh(8, 8, 4, 0), Sh(3, 1, 2, 0)>>
ShapesU4 == <<Sh(1, 1, 0, 0), Sh(16, 16, 7, 0), Sh(12, 4, 21, 0), Sh(0, 8, 10, 0)>>
=============================================================================
