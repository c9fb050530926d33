------------------------------ MODULE CatTrace ------------------------------
(* Trace specification for building catalogs: each line is one construction   *)
(* (raw columns, options, outcome).                                           *)
EXTENDS CatInput, TraceBase
Next == Step(CatJudge)
Spec == Init /\ [][Next]_l
=============================================================================
