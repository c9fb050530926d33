------------------------------ MODULE NearTrace ------------------------------
EXTENDS NearOut, TraceBase
Next == Step(NearJudge)
=============================================================================
