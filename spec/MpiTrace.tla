------------------------------- MODULE MpiTrace ------------------------------
EXTENDS MpiOut, TraceBase
Next == Step(MpiJudge)
=============================================================================
