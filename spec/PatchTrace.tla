----------------------------- MODULE PatchTrace -----------------------------
EXTENDS PatchOut, TraceBase
Next == Step(PatchFailing)
Spec == Init /\ [][Next]_l
=============================================================================
