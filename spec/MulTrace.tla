------------------------------ MODULE MulTrace ------------------------------
EXTENDS MulOut, TraceBase
Next == Step(MulJudge)
Spec == Init /\ [][Next]_l
=============================================================================
