------------------------------ MODULE PairTrace ------------------------------
(* Trace specification for two-point results: every line of the trace is one  *)
(* complete run of the implementation (inputs and binned outputs); the run is *)
(* accepted when the outputs are the sums PairSpec prescribes.                *)
EXTENDS PairOut, TraceBase
Next == Step(Failing)
Spec == Init /\ [][Next]_l
=============================================================================
