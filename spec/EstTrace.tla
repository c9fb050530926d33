------------------------------ MODULE EstTrace ------------------------------
(* Estimator calculations recorded from the code, judged by EstOut.           *)
EXTENDS EstOut, TraceBase
Next == Step(EstJudge)
=============================================================================
