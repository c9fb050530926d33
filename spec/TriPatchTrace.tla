--------------------------- MODULE TriPatchTrace ---------------------------
EXTENDS TriPatchOut, TraceBase
Next == Step(TriPatchJudge)
Spec == Init /\ [][Next]_l
=============================================================================
