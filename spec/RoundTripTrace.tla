--------------------------- MODULE RoundTripTrace ---------------------------
EXTENDS RoundTripOut
Next == Step(TStart, TJudge, TAfter)
=============================================================================
