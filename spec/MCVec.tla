-------------------------------- MODULE MCVec --------------------------------
(* Bounds for model-checking UVecImpl.  sh and nc name a shape to the        *)
(* harness: the number of the trait object's type, or the slice's length.    *)
EXTENDS UVecImpl
Sh(s, a, sh, nc) == [s |-> s, a |-> a, sh |-> sh, nc |-> nc]

ShapesS4 == <<Sh(4, 4, 0, 0)>>
ShapesS1 == <<Sh(1, 1, 0, 0)>>
ShapesS0 == <<Sh(0, 8, 0, 0)>>
ShapesA2 == <<Sh(2, 2, 0, 1), Sh(6, 2, 0, 3), Sh(0, 2, 0, 0)>>
ShapesA1 == <<Sh(1, 1, 0, 1), Sh(3, 1, 0, 3), Sh(0, 1, 0, 0)>>
ShapesU == <<Sh(1, 1, 0, 0), Sh(8, 8, 4, 0), Sh(16, 16, 7, 0)>>
ShapesU2 == <<Sh(3, 1, 2, 0), Sh(12, 4, 21, 0), Sh(0, 8, 10, 0)>>
ShapesU3 == <<Sh(0, 1, 9, 0), Sh(5, 1, 12, 0), Sh(2, 2, 1, 0), Sh(8, 8, 4, 0)>>
ShapesU4 == <<Sh(0, 32, 11, 0), Sh(6, 2, 17, 0), Sh(9, 1, 18, 0)>>
=============================================================================
