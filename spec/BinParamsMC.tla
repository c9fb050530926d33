----------------------------- MODULE BinParamsMC -----------------------------
(* Parameters are given one at a time, in every order and combination, to      *)
(* every bin type; whenever the rules accept them there is a binning, it keeps *)
(* what was given, and its bins tile the range without gap or overlap.         *)
EXTENDS BinParams
VARIABLES bt, g, done
vars == <<bt, g, done>>

Dom(n) ==
  IF n = "nbins" THEN {0, 1, 3}
  ELSE IF n = "bin_size" THEN {"-1", "0.5", "1"}
  ELSE IF n = "min_sep" THEN {0, 1, 2}
  ELSE IF n = "max_sep" THEN {1, 2, 4}
  ELSE IF n \in {"nubins", "nvbins", "nphi_bins"} THEN {1, 4}
  ELSE IF n \in {"ubin_size", "vbin_size", "phi_bin_size"} THEN {"0.3", "0.5"}
  ELSE IF n \in {"min_u", "min_v", "min_phi"} THEN {"0", "0.25"}
  ELSE IF n \in {"max_u", "max_v", "max_phi"} THEN {"0.25", "0.75"}
  ELSE {0, 2}
Sep == {"nbins", "bin_size", "min_sep", "max_sep"}
Third == IF bt = "LogRUV" THEN {"nubins", "ubin_size", "min_u", "max_u", "nvbins", "vbin_size", "min_v", "max_v"}
         ELSE IF bt = "LogSAS" THEN {"nphi_bins", "phi_bin_size", "min_phi", "max_phi"}
         ELSE IF bt = "LogMultipole" THEN {"max_n"} ELSE {}
\* (u and v follow the same rules up to which end moves: one of the two at a time)
Fits(n) == ~(n \in {"nubins", "ubin_size", "min_u", "max_u"} /\ \E q \in {"nvbins", "vbin_size", "min_v", "max_v"} : q \in DOMAIN g)
           /\ ~(n \in {"nvbins", "vbin_size", "min_v", "max_v"} /\ \E q \in {"nubins", "ubin_size", "min_u", "max_u"} : q \in DOMAIN g)
R == [dim |-> IF bt \in {"Log", "Linear", "TwoD"} THEN 2 ELSE 3, bt |-> bt, g |-> g, su |-> 1, pu |-> 1, slop0 |-> "0.1", bogus |-> FALSE]

Init == bt \in {"Log", "Linear", "TwoD", "LogRUV", "LogSAS", "LogMultipole"} /\ g = << >> /\ done = FALSE
SepSettled == Cardinality(Sep \cap DOMAIN g) = 3 /\ ~SepValuesBad(R)
Give == ~done /\ \E n \in Sep \cup Third :
          /\ n \notin DOMAIN g /\ Fits(n)
          /\ (n \in Third => SepSettled) /\ (n \in Sep => DOMAIN g \cap Third = {})
          /\ \E v \in Dom(n) : g' = (n :> v) @@ g
          /\ UNCHANGED <<bt, done>>
Stop == ~done /\ done' = TRUE /\ UNCHANGED <<bt, g>>
Next == Give \/ Stop

Close(a, b) == FClose(a, b, "1e-11", "1e-12")
Counts(r) == {n \in 1..20 : NBinsOK(r, n)}
DCounts(r, d) == {n \in 1..40 : NOK(r, d, n)}
Accepted == done /\ ~Refused(R)
SepInv ==
  Accepted =>
    LET r == R
    IN /\ Counts(r) # {}
       /\ \A n \in Counts(r) :
            /\ \A q \in Sep \cap DOMAIN g : Close(g[q], IF q = "nbins" THEN n ELSE IF q = "min_sep" THEN MinSep(r) ELSE IF q = "max_sep" THEN MaxSep(r)
                                                         ELSE IF Has(r, "nbins") THEN Size(r, n) ELSE g[q])
            /\ (Has(r, "bin_size") => FLe(Size(r, n), FMul(g["bin_size"], "1.000001")))
            /\ FLt(MinSep(r), MaxSep(r)) /\ Gt0(Size(r, n)) /\ (FLe(0, MinSep(r)) => Gt0(Slop(r, n))) /\ FLe(Slop(r, n), 1)
            /\ Close(At(r, n, 0), IF bt = "TwoD" THEN FNeg(MaxSep(r)) ELSE MinSep(r)) /\ Close(At(r, n, 2*n), MaxSep(r))
            /\ \A k \in 1..n : FLt(At(r, n, 2*k - 2), At(r, n, 2*k - 1)) /\ FLt(At(r, n, 2*k - 1), At(r, n, 2*k))
DimInv ==
  Accepted =>
    \A w \in Dims(R) :
      LET r == R
          d == D(r, w)
      IN /\ DCounts(r, d) # {}
         /\ FLe(0, Lo(r, d)) /\ FLt(Lo(r, d), Hi(r, d)) /\ FLe(Hi(r, d), d.top)
         /\ (Has(r, d.lo) => Close(Lo(r, d), g[d.lo])) /\ (Has(r, d.hi) => Close(Hi(r, d), g[d.hi]))
         /\ \A n \in DCounts(r, d) :
              /\ Close(DimAt(r, d, n, 0), Lo(r, d)) /\ Close(DimAt(r, d, n, 2*n), Hi(r, d))
              \* never wider than asked
              /\ FLe(DSize(r, d, n), FMul(IF Has(r, d.size) THEN g[d.size] ELSE IF Has(r, d.n) THEN d.top ELSE NominalSize(r), "1.000001"))
              \* exactly as asked unless the range is exhausted
              /\ (Both(r, d) /\ FLt(0, Lo(r, d)) /\ FLt(Hi(r, d), d.top) => Close(DSize(r, d, n), g[d.size]))
\* too few or too many parameters are never accepted, nor is an empty range
RefuseInv == done /\ bt # "TwoD" /\ Cardinality(Sep \cap DOMAIN g) # 3 => Refused(R)
=============================================================================
