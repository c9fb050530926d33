---------------------------- MODULE CatLifeTrace ----------------------------
EXTENDS CatLifeOut, StateTrace
Next == Step(LStart, LJudge, LAfter)
Spec == Init /\ [][Next]_<<l, st>>
=============================================================================
