------------------------------ MODULE AgreeTrace ------------------------------
EXTENDS AgreeOut, TraceBase
Next == Step(AgreeJudge)
=============================================================================
