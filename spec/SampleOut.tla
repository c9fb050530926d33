----------------------------- MODULE SampleOut -----------------------------
(* Sampling pairs of objects with separations in a given range.  A record has *)
(* the objects, the range, the number asked for, and the list of samples      *)
(* <<i1, i2, sep>> returned by independent calls.                             *)
EXTENDS PairSpec

Carts(co, c) == TLCEval([i \in 1..Len(c) |-> Cart(co, c[i])])

SampleFailing(r) ==
  LET A == Carts(r.coords, r.p1) B == Carts(r.coords, r.p2)
      n1 == Len(A) n2 == Len(B)
      log == r.bn.type = "Log"
      bn == IF log THEN [r.bn EXCEPT !.type = "Linear"] ELSE r.bn   \* there are no bins here, only the range
      all == (1..n1) \X (1..n2)
      D == TLCEval([q \in all |-> TLCEval(Sep(bn.metric, bn.per, A[q[1]], B[q[2]]))])
      \* how far a pair may be from the limits of the range: none unless bin_slop > 0
      lo1 == IF log THEN FMul(bn.min, FSub(1, r.b)) ELSE FSub(bn.min, r.b)
      hi1 == IF log THEN FMul(bn.max, FExp(r.b)) ELSE FAdd(bn.max, r.b)
      lo2 == IF log THEN FMul(bn.min, FExp(r.b)) ELSE FAdd(bn.min, r.b)
      hi2 == IF log THEN FMul(bn.max, FSub(1, r.b)) ELSE FSub(bn.max, r.b)
      exact == FEq(r.b, 0)
      In(q, lo, hi) == BinOf([bn EXCEPT !.min = FMax(lo, 0), !.max = hi, !.bs = IF bn.type = "TwoD" THEN FMul(2, hi) ELSE FSub(hi, lo)],
                             A[q[1]], B[q[2]], D[q]) # 0
      self(q) == r.same /\ q[1] = q[2] /\ FLe(bn.min, r.b)
      amb == {q \in all : Ambiguous(bn, A[q[1]], B[q[2]], D[q]) \/ self(q)}
      sure == IF exact THEN {q \in all \ amb : BinOf(bn, A[q[1]], B[q[2]], D[q]) # 0}
              ELSE IF FLt(lo2, hi2) THEN {q \in all \ amb : In(q, lo2, hi2)} ELSE {}
      may == IF exact THEN sure \cup amb ELSE amb \cup {q \in all : In(q, lo1, hi1)}
      \* separation reported for a pair: its own, or that of the cells which hold it
      \* (a projected separation loses half its digits when the pair is nearly along the line of sight)
      tiny == IF bn.metric \in {"Rperp", "FisherRperp", "OldRperp", "Rlens"} THEN "1e-7" ELSE "1e-12"
      fuzz(q, s) == IF r.brute THEN "0" ELSE FMul("0.5001", FAdd(bn.bs0, r.b))
      SepOK(q, s) == IF log THEN FClose(s, D[q], "1e-9", FAdd("1e-12", FMul(fuzz(q, s), s)))
                     ELSE FClose(s, D[q], "1e-9", FAdd(tiny, fuzz(q, s)))
      InLimits(s) == \/ bn.type = "TwoD"
                     \/ FLe(FMul(bn.min, "0.999999999"), s) /\ FLe(s, FMul(bn.max, "1.000000001"))
      V(v) == LET pairs == [k \in 1..Len(v.i1) |-> <<v.i1[k] + 1, v.i2[k] + 1>>]
                  got == {pairs[k] : k \in 1..Len(pairs)}
              IN IF Len(v.i1) # Len(v.i2) \/ Len(v.i1) # Len(v.sep) THEN {"shape"}
                 ELSE IF ~(got \subseteq all) THEN {"no_such_object"}
                 ELSE (IF Cardinality(got) = Len(pairs) THEN {} ELSE {"pair_repeated"})
                      \cup (IF got \subseteq may THEN {} ELSE {"out_of_range"})
                      \cup (IF Len(pairs) <= r.n /\ (Len(pairs) = r.n \/ sure \subseteq got) THEN {} ELSE {"too_few"})
                      \cup (IF \A k \in 1..Len(pairs) : SepOK(pairs[k], FMul(v.sep[k], r.unit)) /\ InLimits(FMul(v.sep[k], r.unit)) THEN {} ELSE {"sep"})
                      \cup (IF r.n >= Cardinality(may) \/ Len(pairs) >= (IF r.n < Cardinality(sure) THEN r.n ELSE Cardinality(sure)) THEN {} ELSE {"count"})
      each == UNION {V(r.vars[k]) : k \in 1..Len(r.vars)}
      \* how often every pair is selected over many samples
      R == Len(r.vars)
      M == Cardinality(sure)
      count == TLCEval([q \in sure |-> Cardinality({k \in 1..R : \E m \in 1..Len(r.vars[k].i1) : r.vars[k].i1[m] + 1 = q[1] /\ r.vars[k].i2[m] + 1 = q[2]})])
      p == FDiv(r.n, M)
      sigma == FSqrt(FMul(R, FMul(p, FSub(1, p))))
      fair == IF R < 40 \/ ~exact \/ amb # {} \/ M = 0 \/ r.n = 0 \/ r.n >= M \/ each # {} THEN {}
              ELSE IF \A q \in sure : FLe(FAbs(FSub(count[q], FMul(R, p))), FAdd(1, FMul(6, sigma))) THEN {} ELSE {"unfair"}
  IN each \cup fair
     \cup (IF sure = {} THEN {"@empty"} ELSE {})
     \cup (IF r.n > 0 /\ M > r.n THEN {"@nontrivial"} ELSE {})
SampleJudge(r) == IF r.err # "" THEN {"raised"} ELSE SampleFailing(r)
=============================================================================
