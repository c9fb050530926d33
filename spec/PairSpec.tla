------------------------------ MODULE PairSpec ------------------------------
(* What a two-point correlation is: which pairs of objects belong to which    *)
(* bin under each metric and binning, and what each pair contributes.         *)
(* This is the definition; how the implementation gets there (trees, patches, *)
(* threads, processes) is the business of the state machines in TreeWalk,     *)
(* PatchProc, MpiProc, which are checked against it.                          *)
EXTENDS FP, Naturals, Integers, Sequences, FiniteSets, TLC

INF == "inf"

\* ---------------------------------------------------------------- geometry
\* Cartesian position of a recorded object under coordinate system `co`.
Cart(co, p) ==
  CASE co = "flat"   -> <<p[1], p[2], 0>>
    [] co = "3d"     -> p
    [] co = "sphere" -> <<FMul(FCos(p[2]), FCos(p[1])), FMul(FCos(p[2]), FSin(p[1])), FSin(p[2])>>
    [] co = "sphere3" -> <<FMul(p[3], FMul(FCos(p[2]), FCos(p[1]))),
                           FMul(p[3], FMul(FCos(p[2]), FSin(p[1]))), FMul(p[3], FSin(p[2]))>>

Dot(a, b) == FDot(a, b)
Norm(a) == FSqrt(FDot(a, a))
VSub(a, b) == <<FSub(a[1], b[1]), FSub(a[2], b[2]), FSub(a[3], b[3])>>
VAdd(a, b) == <<FAdd(a[1], b[1]), FAdd(a[2], b[2]), FAdd(a[3], b[3])>>
VScale(s, a) == <<FMul(s, a[1]), FMul(s, a[2]), FMul(s, a[3])>>
Cross(a, b) == <<FSub(FMul(a[2], b[3]), FMul(a[3], b[2])),
                 FSub(FMul(a[3], b[1]), FMul(a[1], b[3])),
                 FSub(FMul(a[1], b[2]), FMul(a[2], b[1]))>>
Unit(a) == LET n == Norm(a) IN IF FEq(n, 0) THEN a ELSE VScale(FDiv(1, n), a)

\* Nearest image of a difference under a period (0 = not periodic in that direction)
Wrap1(d, per) == IF FLe(per, 0) THEN d
                 ELSE FSub(d, FMul(per, FRound(FDiv(d, per))))
WrapV(d, per) == <<Wrap1(d[1], per[1]), Wrap1(d[2], per[2]), Wrap1(d[3], per[3])>>

\* Line-of-sight separation of (a, b); positive when b is in the background
RPar(metric, a, b) ==
  IF metric = "OldRperp" THEN FSub(Norm(b), Norm(a))
  ELSE LET L == VScale("0.5", VAdd(a, b)) n == Norm(L)
       IN IF FEq(n, 0) THEN 0 ELSE FDiv(Dot(VSub(b, a), L), n)

\* Metric separation of the (ordered) pair of Cartesian positions (a, b)
Sep(metric, per, a, b) ==
  CASE metric = "Euclidean" -> Norm(VSub(b, a))
    [] metric = "Periodic"  -> Norm(WrapV(VSub(b, a), per))
    [] metric = "Arc"       -> FMul(2, FAtan2(Norm(VSub(Unit(b), Unit(a))), Norm(VAdd(Unit(a), Unit(b)))))
    [] metric \in {"Rperp", "FisherRperp", "OldRperp"} ->
         LET d == Norm(VSub(b, a)) rp == RPar(metric, a, b)
         IN IF metric = "OldRperp" THEN FSqrt(FMax(0, FMul(FSub(d, rp), FAdd(d, rp))))
            ELSE LET L == VScale("0.5", VAdd(a, b)) IN FDiv(Norm(Cross(a, b)), Norm(L))
    [] metric = "Rlens" -> FDiv(Norm(Cross(a, b)), Norm(b))

\* ----------------------------------------------------------------- binning
\* bn = [type, min, max, nbins, bs, minrpar, maxrpar, metric, per, zero]
\* (zero: whether two objects at the same position are a pair; only a cross-correlation whose range starts at 0)
\* Bin of a pair, 1-based; 0 when the pair is out of range.
RParOK(bn, a, b) ==
  \/ FEq(bn.minrpar, "-inf") /\ FEq(bn.maxrpar, "inf")
  \/ LET rp == RPar(bn.metric, a, b) IN FLe(bn.minrpar, rp) /\ FLe(rp, bn.maxrpar)

Clip(k, n) == IF k < 0 THEN 0 ELSE IF k >= n THEN n - 1 ELSE k

TwoDBin(bn, dx, dy) ==
  LET i == FFloor(FDiv(FAdd(dx, bn.max), bn.bs))
      j == FFloor(FDiv(FAdd(dy, bn.max), bn.bs))
  IN 1 + Clip(j, bn.nbins) * bn.nbins + Clip(i, bn.nbins)

BinOf(bn, a, b, r) ==
  IF ~RParOK(bn, a, b) THEN 0
  ELSE IF bn.type = "TwoD"
  THEN LET d == VSub(b, a)
       IN IF FEq(r, 0) \/ FLt(r, bn.min) \/ ~FLt(FAbs(d[1]), bn.max) \/ ~FLt(FAbs(d[2]), bn.max) THEN 0
          ELSE TwoDBin(bn, d[1], d[2])
  ELSE IF FLt(r, bn.min) \/ ~FLt(r, bn.max) \/ (FEq(r, 0) /\ ~bn.zero) THEN 0
  ELSE IF bn.type = "Log" THEN 1 + Clip(FFloor(FDiv(FLog(FDiv(r, bn.min)), bn.bs)), bn.nbins)
  ELSE 1 + Clip(FFloor(FDiv(FSub(r, bn.min), bn.bs)), bn.nbins)

NOut(bn) == IF bn.type = "TwoD" THEN bn.nbins * bn.nbins ELSE bn.nbins

\* Is the real number x within eps of an integer (or of a range limit)?
NearInt(x) == FClose(x, FRound(x), 0, "1e-7")
Near(x, y) == FClose(x, y, "1e-8", "1e-12")
Ambiguous(bn, a, b, r) ==
  \/ (bn.type = "Linear" /\ FEq(bn.min, 0) /\ FClose(r, 0, 0, "1e-7")
      /\ bn.metric \in {"Rperp", "FisherRperp", "OldRperp", "Rlens"})
  \/ (bn.type = "Log" /\ ~FEq(r, 0) /\ NearInt(FDiv(FLog(FDiv(r, bn.min)), bn.bs)))
  \/ (bn.type = "Linear" /\ ~(FEq(r, 0) /\ FEq(bn.min, 0)) /\ (NearInt(FDiv(FSub(r, bn.min), bn.bs))))
  \/ (bn.type = "TwoD" /\ LET d == VSub(b, a)
        IN NearInt(FDiv(FAdd(d[1], bn.max), bn.bs)) \/ NearInt(FDiv(FAdd(d[2], bn.max), bn.bs))
           \/ (Near(r, bn.min) /\ ~FEq(bn.min, 0)))
  \/ (bn.type # "TwoD" /\ ((Near(r, bn.min) /\ ~(FEq(r, 0) /\ FEq(bn.min, 0))) \/ Near(r, bn.max)))
  \/ (~FEq(bn.minrpar, "-inf") /\ LET rp == RPar(bn.metric, a, b) IN Near(rp, bn.minrpar))
  \/ (~FEq(bn.maxrpar, "inf") /\ LET rp == RPar(bn.metric, a, b) IN Near(rp, bn.maxrpar))

\* ------------------------------------------------------- complex arithmetic
CMul(x, y) == <<FSub(FMul(x[1], y[1]), FMul(x[2], y[2])), FAdd(FMul(x[1], y[2]), FMul(x[2], y[1]))>>
CConj(x) == <<x[1], FNeg(x[2])>>
CNeg(x) == <<FNeg(x[1]), FNeg(x[2])>>
CScale(s, x) == <<FMul(s, x[1]), FMul(s, x[2])>>
RECURSIVE CPow(_, _)
CPow(x, n) == IF n = 0 THEN <<1, 0>> ELSE CMul(x, CPow(x, n - 1))

Spin(letter) == CASE letter = "V" -> 1 [] letter = "G" -> 2 [] letter = "T" -> 3 [] letter = "Q" -> 4
                  [] OTHER -> 0

\* Local axes on the sky at unit vector p: x towards West, y towards North.
SkyAxes(p) ==
  LET c == FSqrt(FAdd(FMul(p[1], p[1]), FMul(p[2], p[2])))
      ca == FDiv(p[1], c) sa == FDiv(p[2], c)
  IN << <<sa, FNeg(ca), 0>>, <<FNeg(FMul(p[3], ca)), FNeg(FMul(p[3], sa)), c>> >>

CUnit(z) == LET n == FSqrt(FAdd(FMul(z[1], z[1]), FMul(z[2], z[2])))
            IN IF FEq(n, 0) THEN <<1, 0>> ELSE <<FDiv(z[1], n), FDiv(z[2], n)>>

\* Unit direction (complex) of the line from a through b, measured in the local axes at `at` (a or b).
DirAt(co, bn, a, b, atB) ==
  IF co = "flat"
  THEN LET d == IF bn.metric = "Periodic" THEN WrapV(VSub(b, a), bn.per) ELSE VSub(b, a)
       IN CUnit(<<d[1], d[2]>>)
  ELSE LET ua == Unit(a) ub == Unit(b)
       IN IF atB THEN LET ax == SkyAxes(ub) IN CUnit(<<FNeg(Dot(ua, ax[1])), FNeg(Dot(ua, ax[2]))>>)
          ELSE LET ax == SkyAxes(ua) IN CUnit(<<Dot(ub, ax[1]), Dot(ub, ax[2])>>)
\* The same, ignoring that the metric is periodic (only used to identify a known finding)
DirRaw(co, bn, a, b, atB) == DirAt(co, [bn EXCEPT !.metric = "Euclidean"], a, b, atB)

\* Field value v (complex) of spin s projected onto direction u:  v * exp(-i s angle(u))
Project(v, s, u) == CMul(v, CPow(CConj(u), s))

\* Contribution of the ordered pair of values (v1, v2) to the correlation, before weighting:
\*   one complex number for N/K x anything, two (plus, minus) for complex x complex.
Contrib(l1, l2, v1, v2, u1, u2) ==
  IF l1 = "N" /\ l2 = "N" THEN << >>
  ELSE IF l1 \in {"N", "K"}
  THEN LET k1 == IF l1 = "N" THEN 1 ELSE v1[1]
           z == CScale(k1, Project(v2, Spin(l2), u2))
       IN << IF l2 = "G" THEN CNeg(z) ELSE z >>
  ELSE LET p1 == Project(v1, Spin(l1), u1) p2 == Project(v2, Spin(l2), u2)
       IN << CMul(p1, CConj(p2)), CMul(p1, p2) >>

\* ------------------------------------------------------------- pair lists
\* Ordered list of index pairs considered.  An auto-correlation has every unordered pair once,
\* in both directions when the binning is directional.
AutoPairs(n, both) ==
  LET Row(i) == [j \in 1..(n - i) |-> <<i, i + j>>]
      RowB(i) == [j \in 1..n |-> <<i, j>>]
      RECURSIVE Acc(_)
      Acc(i) == IF i > n THEN << >>
                ELSE (IF both THEN SelectSeq(RowB(i), LAMBDA q : q[1] # q[2]) ELSE Row(i)) \o Acc(i + 1)
  IN Acc(1)
CrossPairs(n, m) == [q \in 1..(n * m) |-> <<1 + ((q - 1) \div m), 1 + ((q - 1) % m)>>]

\* Two objects on the same line of sight (or opposite each other) have no direction on the sky between them
NoDirection(a, b) == FLt(Norm(Cross(Unit(a), Unit(b))), "1e-7")

\* One evaluated pair
\* [k |-> bin (0 = none), r, w |-> w1*w2, c |-> weighted contributions, raw |-> ditto with the unwrapped direction]
EvalPair(co, bn, l1, l2, A, B, pa, pb, i, j, raw, sky) ==
  LET a == A[i] b == B[j]
      r == Sep(bn.metric, bn.per, a, b)
      k == BinOf(bn, a, b, r)
      w == FMul(pa[i].w, pb[j].w)
      s == Spin(l1) + Spin(l2)
      u1 == IF s = 0 THEN <<1, 0>> ELSE IF raw THEN DirRaw(sky, bn, a, b, FALSE) ELSE DirAt(sky, bn, a, b, FALSE)
      u2 == IF s = 0 THEN <<1, 0>> ELSE IF raw THEN DirRaw(sky, bn, a, b, TRUE) ELSE DirAt(sky, bn, a, b, TRUE)
  IN IF k = 0 THEN [k |-> 0, r |-> r, w |-> w, c |-> << >>, amb |-> Ambiguous(bn, a, b, r)]
     ELSE [k |-> k, r |-> r, w |-> w,
           amb |-> Ambiguous(bn, a, b, r) \/ (s # 0 /\ sky = "sky" /\ NoDirection(a, b)),
           c |-> LET cc == Contrib(l1, l2, pa[i].v, pb[j].v, u1, u2)
                 IN [q \in 1..Len(cc) |-> CScale(w, cc[q])]]

InBin(P, k) == SelectSeq(P, LAMBDA q : q.k = k)
=============================================================================
