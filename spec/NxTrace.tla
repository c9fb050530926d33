------------------------------ MODULE NxTrace ------------------------------
(* Histories of compensated calculations, judged by NxOut.                   *)
EXTENDS NxOut, TraceBase
Next == Step(NxJudge)
=============================================================================
