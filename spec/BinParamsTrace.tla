--------------------------- MODULE BinParamsTrace ---------------------------
EXTENDS BinParams, TraceBase
Next == Step(BJudge)
Spec == Init /\ [][Next]_l
=============================================================================
