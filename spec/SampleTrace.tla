----------------------------- MODULE SampleTrace -----------------------------
EXTENDS SampleOut, TraceBase
Next == Step(SampleJudge)
=============================================================================
