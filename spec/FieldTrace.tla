------------------------------ MODULE FieldTrace ------------------------------
EXTENDS FieldOut
Next == Step(CStart, CJudge, CAfter)
=============================================================================
