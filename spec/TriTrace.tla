------------------------------ MODULE TriTrace ------------------------------
EXTENDS TriOut, TraceBase
Next == Step(TriJudge)
Spec == Init /\ [][Next]_l
=============================================================================
