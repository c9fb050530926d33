----------------------------- MODULE CatLifeGen -----------------------------
EXTENDS CatLife
CONSTANT Depth
GNext == Len(hist) < Depth /\ Next
GOut == Emit(Depth)
=============================================================================
