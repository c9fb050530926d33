------------------------------ MODULE SlopOut ------------------------------
(* What a two-point correlation may be when bin_slop (b, in natural units of  *)
(* the binning) or angle_slop (a) is not zero.  A pair may be put in any bin  *)
(* whose limits, widened by the slop, contain its own separation; it may be   *)
(* left out only if its separation is within the slop of the limits of the    *)
(* whole range.  Every pair goes to one bin, so for every range of bins the   *)
(* counts lie between the pairs that have to be inside and those that may be  *)
(* (for intervals of bins this is exactly the condition that an allowed       *)
(* assignment of pairs to bins exists).                                       *)
EXTENDS PairOut

EPS == "1e-9"
Lo(x) == FMul(x, FSub(1, EPS))
Hi(x) == FMul(x, FAdd(1, EPS))

\* Limits of separation that may be put at distance x, for the binning of record r
Least(r, x) ==
  LET byA == FMul(x, FMax(0, FSub(1, r.a)))
      byB == IF r.bn.type = "Log" THEN FMul(x, FMax(0, FSub(1, r.b))) ELSE FSub(x, r.b)
  IN Lo(FMax(byA, byB))
Most(r, x) ==
  LET byA == FMul(x, FAdd(1, r.a))
      byB == IF r.bn.type = "Log" THEN FMul(x, FExp(r.b)) ELSE FAdd(x, r.b)
  IN Hi(FMin(byA, byB))

Edge(bn, k) == IF bn.type = "Log" THEN FMul(bn.min, FExp(FMul(k, bn.bs))) ELSE FAdd(bn.min, FMul(k, bn.bs))
Edges(bn) == TLCEval([k \in 1..(bn.nbins + 1) |-> Edge(bn, k - 1)])

\* One pair: bins lo..hi it may be in (0 < lo <= hi; lo = 0 if none), sure: it may not be left out
\* Acceptance of a pair whose true separation is d at tree distance d' has d' <= d + slop; both directions are symmetric
\* enough that only the widened limits are needed.
Pair1(r, E, d) ==
  LET n == r.bn.nbins
      ok == {k \in 1..n : FLe(Least(r, E[k]), d) /\ FLe(d, Most(r, E[k + 1]))}
      minsure == Most(r, E[1])
      maxsure == Least(r, E[n + 1])
  IN [lo |-> IF ok = {} THEN 0 ELSE CHOOSE k \in ok : \A j \in ok : k <= j,
      hi |-> IF ok = {} THEN 0 ELSE CHOOSE k \in ok : \A j \in ok : k >= j,
      sure |-> FLt(minsure, d) /\ FLt(d, maxsure)]

SlopPairs(r) ==
  LET co == r.coords
      A == Carts(co, r.c1) B == IF r.auto THEN A ELSE Carts(r.coords2, r.c2)
      pa == r.c1 pb == IF r.auto THEN r.c1 ELSE r.c2
      idx == IF r.auto THEN AutoPairs(Len(pa), FALSE) ELSE CrossPairs(Len(pa), Len(pb))
      E == Edges(r.bn)
  IN TLCEval([q \in 1..Len(idx) |-> TLCEval(
        LET i == idx[q][1] j == idx[q][2]
        IN Pair1(r, E, Sep(r.bn.metric, r.bn.per, A[i], B[j]))
           @@ [w |-> FMul(pa[i].w, pb[j].w),
               kk |-> IF r.l1 = "N" /\ r.l2 = "N" THEN 0
                      ELSE FMul(FMul(pa[i].w, pb[j].w),
                                FMul(IF r.l1 = "K" THEN pa[i].v[1] ELSE 1, IF r.l2 = "K" THEN pb[j].v[1] ELSE 1))])])

\* sums over bins i..j of a recorded array
Cum(o, i, j) == FSum([k \in 1..(j - i + 1) |-> o[i + k - 1]])
Within(lo, x, hi, s) == FLe(FSub(lo, FMul("1e-9", s)), x) /\ FLe(x, FAdd(hi, FMul("1e-9", s)))
\* quantity F (non-negative) summed over the pairs that must/may be in bins i..j
Between(P, o, i, j, F(_)) ==
  LET must == SelectSeq(P, LAMBDA q : q.sure /\ q.lo >= i /\ q.hi <= j)
      may == SelectSeq(P, LAMBDA q : q.lo # 0 /\ q.hi >= i /\ q.lo <= j)
      up == RealSum(may, F)
  IN Within(RealSum(must, F), Cum(o, i, j), up, up)

Prod(o, x) == [k \in 1..Len(o) |-> FMul(o[k], x[k])]

Bins1D(r) ==
  LET P == SlopPairs(r) n == r.bn.nbins o == r.out E == Edges(r.bn)
      R == {<<i, j>> \in (1..n) \X (1..n) : i <= j}
      xw == IF r.l1 \in {"N", "K"} /\ r.l2 = "K" THEN Prod(o.xi, o.weight) ELSE << >>
  IN (IF \A q \in R : Between(P, o.npairs, q[1], q[2], LAMBDA p : 1) THEN {} ELSE {"npairs"})
     \cup (IF \A q \in R : Between(P, o.weight, q[1], q[2], LAMBDA p : p.w) THEN {} ELSE {"weight"})
     \cup (IF Len(xw) = 0 \/ \A q \in R : Between(P, xw, q[1], q[2], LAMBDA p : p.kk) THEN {} ELSE {"xi"})
     \cup (IF \A k \in 1..n : \/ FEq(o.npairs[k], 0)
                              \/ FLe(Report(r, Lo(E[k])), FMul(o.meanr[k], FAdd(1, "1e-6")))
                                 /\ FLe(FMul(o.meanr[k], FSub(1, "1e-6")), Report(r, Hi(E[k + 1]))) THEN {} ELSE {"meanr"})
     \cup (IF \E q \in 1..Len(P) : P[q].sure /\ P[q].lo = P[q].hi THEN {"@nontrivial"} ELSE {})

\* ------------------------------------------------------------------- TwoD
\* bins are squares; each component of the separation moves by at most b (and a times the separation)
Span(r, d, s) ==
  LET n == r.bn.nbins
      F(x) == FFloor(FDiv(FAdd(x, r.bn.max), r.bn.bs))
      x1 == F(FSub(d, s)) x2 == F(FAdd(d, s))
  IN [lo |-> IF x2 < 0 \/ x1 >= n THEN 0 ELSE IF x1 < 0 THEN 1 ELSE x1 + 1,
      hi |-> IF x2 < 0 \/ x1 >= n THEN 0 ELSE IF x2 >= n THEN n ELSE x2 + 1]
Pairs2D(r) ==
  LET A == Carts(r.coords, r.c1) B == IF r.auto THEN A ELSE Carts(r.coords2, r.c2)
      pa == r.c1 pb == IF r.auto THEN r.c1 ELSE r.c2
      idx == IF r.auto THEN AutoPairs(Len(pa), TRUE) ELSE CrossPairs(Len(pa), Len(pb))
  IN TLCEval([q \in 1..Len(idx) |-> TLCEval(
       LET i == idx[q][1] j == idx[q][2]
           d == VSub(B[j], A[i]) h == Norm(d)
           s == FAdd(FMin(r.b, IF FLe(1, r.a) THEN r.b ELSE FDiv(FMul(r.a, h), FSub(1, r.a))), FMul(EPS, r.bn.max))
           x == Span(r, d[1], s) y == Span(r, d[2], s)
           m == FMax(FAbs(d[1]), FAbs(d[2]))
       IN [x |-> x, y |-> y, w |-> FMul(pa[i].w, pb[j].w),
           may |-> x.lo # 0 /\ y.lo # 0 /\ FLe(r.bn.min, FAdd(h, s)) /\ FLt(0, FAdd(h, r.b)),
           sure |-> FLt(FAdd(m, s), r.bn.max) /\ FLt(FAdd(r.bn.min, s), h) /\ FLt(s, h)])])
Bins2D(r) ==
  LET P == Pairs2D(r) n == r.bn.nbins o == r.out
      \* rectangles of bins: x1..x2 by y1..y2
      R == {<<a, b, c, d>> \in (1..n) \X (1..n) \X (1..n) \X (1..n) :
              /\ a <= b /\ c <= d
              /\ (a = b \/ (a = 1 /\ b = n)) /\ (c = d \/ (c = 1 /\ d = n))}
      Rect(v, q) == FSum([t \in 1..((q[2] - q[1] + 1) * (q[4] - q[3] + 1)) |->
                           LET i == q[1] + ((t - 1) % (q[2] - q[1] + 1)) j == q[3] + ((t - 1) \div (q[2] - q[1] + 1))
                           IN v[(j - 1) * n + i]])
      Ok(v, q, F(_)) ==
        LET must == SelectSeq(P, LAMBDA p : p.sure /\ p.x.lo >= q[1] /\ p.x.hi <= q[2] /\ p.y.lo >= q[3] /\ p.y.hi <= q[4])
            may == SelectSeq(P, LAMBDA p : p.may /\ p.x.hi >= q[1] /\ p.x.lo <= q[2] /\ p.y.hi >= q[3] /\ p.y.lo <= q[4])
            up == RealSum(may, F)
        IN Within(RealSum(must, F), Rect(v, q), up, up)
  IN (IF \A q \in R : Ok(o.npairs, q, LAMBDA p : 1) THEN {} ELSE {"npairs"})
     \cup (IF \A q \in R : Ok(o.weight, q, LAMBDA p : p.w) THEN {} ELSE {"weight"})
     \cup (IF \E q \in 1..Len(P) : P[q].sure THEN {"@nontrivial"} ELSE {})

\* ------------------------------------------------------------------ angle
\* In the plane a pair is projected along a direction that differs from its own by no more than asin(a).
\* When every pair is surely in range, the sums over all bins differ only by these rotations.
AngleOK(r) ==
  LET A == Carts(r.coords, r.c1) B == IF r.auto THEN A ELSE Carts(r.coords2, r.c2)
      pa == r.c1 pb == IF r.auto THEN r.c1 ELSE r.c2
      idx == IF r.auto THEN AutoPairs(Len(pa), FALSE) ELSE CrossPairs(Len(pa), Len(pb))
      E == Edges(r.bn)
      P == TLCEval([q \in 1..Len(idx) |-> TLCEval(
             LET e == EvalPair(r.coords, r.bn, r.l1, r.l2, A, B, pa, pb, idx[q][1], idx[q][2], FALSE, "flat")
             IN e @@ [s |-> Pair1(r, E, e.r).sure])])
      two == r.l1 \notin {"N", "K"}
      s1 == Spin(r.l1) s2 == Spin(r.l2)
      sp(m) == IF ~two THEN s2 ELSE IF m = 1 THEN (IF s1 > s2 THEN s1 - s2 ELSE s2 - s1) ELSE s1 + s2
      ang == FMin(FMul("1.5", FAsin(FMin(1, r.a))), FAsin(FMin(1, FMul("1.000001", r.a))))
      Tot(x) == FSum(Prod(x, r.out.weight))
      Exp(m, part) == FSum([q \in 1..Len(P) |-> P[q].c[m][part]])
      Size(m) == FSum([q \in 1..Len(P) |-> FSqrt(FAdd(FMul(P[q].c[m][1], P[q].c[m][1]), FMul(P[q].c[m][2], P[q].c[m][2])))])
      Dev(m) == LET t == FMul(sp(m), ang) IN FMul(Size(m), IF FLe("3.14159", t) THEN 2 ELSE FMul(2, FSin(FDiv(t, 2))))
      \* (the imaginary part of xip has the sign of the order of the pair, which an auto-correlation leaves open)
      Ok(m, re, im) == LET x == FSub(Tot(re), Exp(m, 1))
                           y == IF r.auto /\ m = 1 THEN 0 ELSE FSub(Tot(im), Exp(m, 2))
                       IN FLe(FSqrt(FAdd(FMul(x, x), FMul(y, y))), FAdd(Dev(m), FMul("1e-7", Size(m))))
  IN IF ~(\A q \in 1..Len(P) : P[q].s) THEN {"@skip"}
     ELSE {"@nontrivial"}
          \cup (IF Ok(1, r.out.xi, r.out.xi_im) THEN {} ELSE {"angle"})
          \cup (IF two => Ok(2, r.out.xim, r.out.xim_im) THEN {} ELSE {"angle_xim"})

SlopJudge(r) ==
  IF r.err # "" THEN {"raised"}
  ELSE (IF r.bn.type = "TwoD" THEN Bins2D(r) ELSE Bins1D(r))
       \cup (IF r.angle THEN AngleOK(r) ELSE {})
=============================================================================
