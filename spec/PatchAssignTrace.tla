-------------------------- MODULE PatchAssignTrace --------------------------
EXTENDS PatchAssign, TraceBase
Next == Step(PJudge)
Spec == Init /\ [][Next]_l
=============================================================================
