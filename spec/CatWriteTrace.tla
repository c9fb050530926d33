-------------------------- MODULE CatWriteTrace --------------------------
EXTENDS CatWrite, TraceBase
Next == Step(WJudge)
Spec == Init /\ [][Next]_l
=============================================================================
