---------------------------- MODULE DerivedTrace ----------------------------
EXTENDS Derived, TraceBase
Next == Step(DJudge)
Spec == Init /\ [][Next]_l
=============================================================================
