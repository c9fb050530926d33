------------------------------ MODULE PairOut ------------------------------
(* What the published arrays of a two-point correlation have to be, given the *)
(* complete inputs; used by every trace specification about two-point results. *)
EXTENDS PairSpec, Json, IOUtils

TOL == "1e-7"
\* `x` recorded, `e` expected, s = scale of the terms summed
Eq(x, e, s) == FClose(x, e, TOL, FMul("1e-9", s))

Carts(co, c) == TLCEval([i \in 1..Len(c) |-> Cart(co, c[i].p)])

Pairs(r, raw) ==
  LET co == r.coords
      A == Carts(co, r.c1) B == IF r.auto THEN A ELSE Carts(r.coords2, r.c2)
      pa == r.c1 pb == IF r.auto THEN r.c1 ELSE r.c2
      sky == IF co = "flat" THEN "flat" ELSE "sky"
      idx == IF r.auto THEN AutoPairs(Len(pa), r.bn.type = "TwoD") ELSE CrossPairs(Len(pa), Len(pb))
  IN TLCEval([q \in 1..Len(idx) |->
        TLCEval(EvalPair(co, r.bn, r.l1, r.l2, A, B, pa, pb, idx[q][1], idx[q][2], raw, sky))])

RealSum(S, F(_)) == FSum([q \in 1..Len(S) |-> F(S[q])])
AbsSum(S, F(_)) == FAbsSum([q \in 1..Len(S) |-> F(S[q])])

\* Euclidean on the sphere reports angles, everything in units of sep_units
Report(r, x) == FDiv(IF r.chord THEN FMul(2, FAsin(FDiv(x, 2))) ELSE x, r.unit)
ReportLog(r, x) == FLog(Report(r, FExp(x)))

BadBin(r, P, k) ==
  LET S == TLCEval(InBin(P, k))
      W == RealSum(S, LAMBDA q : q.w)
      absW == AbsSum(S, LAMBDA q : q.w)
      o == r.out
      empty == FEq(W, 0)
      mr == FDiv(RealSum(S, LAMBDA q : FMul(q.w, q.r)), W)
      zero == \E q \in 1..Len(S) : FEq(S[q].r, 0)
      ml == FDiv(RealSum(S, LAMBDA q : FMul(q.w, FLog(q.r))), W)
      cond == FDiv(absW, FAbs(W))
      nC == IF Len(S) = 0 THEN 0 ELSE Len(S[1].c)
      XiOK(m, part, obs) ==
        LET t == [q \in 1..Len(S) |-> S[q].c[m][part]]
        IN Eq(obs, FDiv(FSum(t), W), FDiv(FAdd(FAbsSum([q \in 1..Len(S) |-> S[q].c[m][1]]),
                                            FAbsSum([q \in 1..Len(S) |-> S[q].c[m][2]])), FAbs(W)))
  IN (IF ~r.pairs THEN {} ELSE
     (IF FEq(o.npairs[k], Len(S)) THEN {} ELSE {"npairs"})
     \cup (IF Eq(o.weight[k], W, absW) THEN {} ELSE {"weight"})
     \cup (IF empty \/ ~r.meanexact \/ Eq(o.meanr[k], Report(r, mr), FMul(cond, r.bn.max)) THEN {} ELSE {"meanr"})
     \cup (IF empty \/ zero \/ ~r.meanexact \/ FClose(o.meanlogr[k], ReportLog(r, ml), TOL, FMul("1e-7", cond)) THEN {}
           ELSE {"meanlogr"}))
     \cup (IF empty \/ nC = 0 \/ ~r.fields THEN {}
           ELSE IF nC = 1
           THEN (IF XiOK(1, 1, o.xi[k]) THEN {} ELSE {"xi"})
                \cup (IF Len(o.xi_im) = 0 \/ XiOK(1, 2, o.xi_im[k]) THEN {} ELSE {"xi_im"})
           ELSE (IF XiOK(1, 1, o.xi[k]) THEN {} ELSE {"xip"})
                \cup (IF r.skipim \/ XiOK(1, 2, o.xi_im[k]) THEN {} ELSE {"xip_im"})
                \cup (IF XiOK(2, 1, o.xim[k]) THEN {} ELSE {"xim"})
                \cup (IF XiOK(2, 2, o.xim_im[k]) THEN {} ELSE {"xim_im"}))

\* Known finding: in an auto-correlation with Linear bins starting at 0, whether two objects at the same position
\* are a pair depends on rounding in the tree and on the patches, and a local one pairs each object with itself.
\* Only the number of pairs in the first bin is then judged, between the two extremes.
Coincident(bn, auto, P, local) ==
  IF auto /\ bn.type = "Linear" /\ FEq(bn.min, 0) /\ (local \/ \E q \in 1..Len(P) : FClose(P[q].r, 0, 0, "1e-7"))
  THEN {1} ELSE {}
CoincidentBin(r, P, local) ==
  LET lo == Len(InBin(P, 1))
      hi == lo + Len(SelectSeq(P, LAMBDA q : q.k = 0 /\ FClose(q.r, 0, 0, "1e-7"))) + (IF local THEN Len(r.c1) ELSE 0)
  IN IF FEq(r.out.npairs[1], lo) THEN {}
     ELSE IF FLe(lo, r.out.npairs[1]) /\ FLe(r.out.npairs[1], hi) THEN {"coincident_pairs"} ELSE {"npairs"}

Failing0(r, raw) ==
  LET P == Pairs(r, raw)
  IN IF ~r.edge /\ \E q \in 1..Len(P) : P[q].amb THEN {"@ambiguous"}
     ELSE (UNION {BadBin(r, P, k) : k \in (1..NOut(r.bn)) \ Coincident(r.bn, r.auto, P, FALSE)})
          \cup (IF ~r.pairs \/ Coincident(r.bn, r.auto, P, FALSE) = {} THEN {} ELSE CoincidentBin(r, P, FALSE))
          \cup (IF ~r.pairs \/ Len(r.tot) = 0 \/ Eq(r.tot[1],
                    LET pa == r.c1 pb == r.c2
                        s1 == FSum([i \in 1..Len(pa) |-> pa[i].w])
                    IN IF r.auto THEN FMul("0.5", FMul(s1, s1))
                       ELSE FMul(s1, FSum([i \in 1..Len(pb) |-> pb[i].w])), 1) THEN {} ELSE {"tot"})
          \cup (IF FEq(FSum(r.out.npairs), 0) THEN {"@empty"} ELSE {})

\* Known finding: with the Periodic metric, spins are projected along the unwrapped direction.
\* Such a run is reported as exactly {"periodic_raw"}; any other deviation under Periodic keeps its own clause.
FieldClauses == {"xi", "xi_im", "xip", "xip_im", "xim", "xim_im"}
Failing(r) ==
  IF r.err # "" THEN {"raised"}
  ELSE LET f == Failing0(r, FALSE)
       IN IF r.bn.metric = "Periodic" /\ f # {} /\ f \subseteq FieldClauses /\ Failing0(r, TRUE) = {}
          THEN {"periodic_raw"} ELSE f
=============================================================================
