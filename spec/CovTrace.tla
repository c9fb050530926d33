------------------------------ MODULE CovTrace ------------------------------
(* Covariance estimates recorded from the code, judged by CovOut.             *)
EXTENDS CovOut, TraceBase
Next == Step(CovJudge)
=============================================================================
