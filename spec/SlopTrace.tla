----------------------------- MODULE SlopTrace -----------------------------
(* Trace specification for bin_slop: each line is one complete run.           *)
EXTENDS SlopOut, TraceBase
Next == Step(SlopJudge)
Spec == Init /\ [][Next]_l
=============================================================================
