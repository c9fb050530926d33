--------------------------------- MODULE FP ---------------------------------
(* Real arithmetic for the specifications.  A real number is written as a     *)
(* decimal string ("0.25") or as an integer.  The operators below stand for   *)
(* the mathematical operations; TLC evaluates them with IEEE doubles through  *)
(* the module override java/tlc2/module/FP.java.  FClose is the only          *)
(* comparison used against values observed in the implementation.             *)
LOCAL INSTANCE TLC
LOCAL INSTANCE Sequences
FAdd(a, b) == Assert(FALSE, "FP override not loaded")
FSub(a, b) == Assert(FALSE, "FP override not loaded")
FMul(a, b) == Assert(FALSE, "FP override not loaded")
FDiv(a, b) == Assert(FALSE, "FP override not loaded")
FNeg(a) == Assert(FALSE, "FP override not loaded")
FAbs(a) == Assert(FALSE, "FP override not loaded")
FSqrt(a) == Assert(FALSE, "FP override not loaded")
FLog(a) == Assert(FALSE, "FP override not loaded")
FExp(a) == Assert(FALSE, "FP override not loaded")
FSin(a) == Assert(FALSE, "FP override not loaded")
FCos(a) == Assert(FALSE, "FP override not loaded")
FAsin(a) == Assert(FALSE, "FP override not loaded")
FAtan2(a, b) == Assert(FALSE, "FP override not loaded")
FMin(a, b) == Assert(FALSE, "FP override not loaded")
FMax(a, b) == Assert(FALSE, "FP override not loaded")
FLt(a, b) == Assert(FALSE, "FP override not loaded")
FLe(a, b) == Assert(FALSE, "FP override not loaded")
FEq(a, b) == Assert(FALSE, "FP override not loaded")
FIsNaN(a) == Assert(FALSE, "FP override not loaded")
FFinite(a) == Assert(FALSE, "FP override not loaded")
\* Largest integer <= a, and nearest integer, as TLA+ integers
FFloor(a) == Assert(FALSE, "FP override not loaded")
FRound(a) == Assert(FALSE, "FP override not loaded")
\* |a-b| <= atol + rtol*max(|a|,|b|); equal infinities are close; NaN is close to NaN only
FClose(a, b, rtol, atol) == Assert(FALSE, "FP override not loaded")
\* Sum and dot product of sequences; sum of absolute values (for tolerances)
FSum(s) == Assert(FALSE, "FP override not loaded")
FAbsSum(s) == Assert(FALSE, "FP override not loaded")
\* Largest absolute value of the finite elements of a sequence
FMaxAbs(s) == Assert(FALSE, "FP override not loaded")
FDot(s, t) == Assert(FALSE, "FP override not loaded")
=============================================================================
