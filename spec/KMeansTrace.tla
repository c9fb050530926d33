------------------------------ MODULE KMeansTrace ------------------------------
EXTENDS KMeansOut, TraceBase
Next == Step(KMJudge)
=============================================================================
