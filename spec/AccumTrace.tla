------------------------------ MODULE AccumTrace ------------------------------
EXTENDS AccumOut
Next == Step(AStart, AJudge, AAfter)
=============================================================================
