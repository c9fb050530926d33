----------------------------- MODULE KMeansOut -----------------------------
(* k-means patches.  The specification's step is Lloyd's: every object is     *)
(* labelled with its nearest center, then every center moves to the weighted  *)
(* mean of its objects (back onto the unit sphere for a spherical field).     *)
(* A record holds the objects, the centers from the initialisation, a chain   *)
(* of single refinement steps with the labels at each, and the centers and    *)
(* labels of a complete run from the same initialisation.                     *)
EXTENDS PairSpec, FiniteSetsExt, Functions, SequencesExt

P3(x) == IF Len(x) = 2 THEN <<x[1], x[2], 0>> ELSE x
Place(r, p) == IF r.field = "spherical" THEN Unit(Cart(r.coords, p)) ELSE Cart(r.coords, p)
DSq(a, b) == LET d == VSub(a, b) IN FDot(d, d)
Rows(r) == 1..Len(r.pts)
Num(S) == SetToSortSeq(S, <)
MinDSq(D, K) == FoldFunction(FMin, "inf", D)

\* distances squared of object i from all centers
Dist(P, C) == TLCEval([i \in DOMAIN P |-> TLCEval([k \in DOMAIN C |-> DSq(P[i], C[k])])])
BestOf(D) == TLCEval([i \in DOMAIN D |-> MinDSq(D[i], 0)])
Tol(sc) == FMul("1e-9", FMul(sc, sc))
\* labels that are nearest (within rounding), per object
NearestSet(D, B, i, tol) == {k \in DOMAIN D[i] : FLe(D[i][k], FAdd(B[i], tol))}

Members(lab, k) == Num({i \in DOMAIN lab : lab[i] = k - 1})
Mean(r, P, m) ==
  LET sw == FSum([q \in 1..Len(m) |-> r.w[m[q]]])
      s == [c \in 1..3 |-> FDiv(FSum([q \in 1..Len(m) |-> FMul(r.w[m[q]], P[m[q]][c])]), sw)]
  IN IF r.field = "spherical" THEN Unit(s) ELSE s
Inertia(r, P, C, lab) == FSum([i \in 1..Len(lab) |-> FMul(r.w[i], DSq(P[i], C[lab[i] + 1]))])
Shift(A, B) == FSum([k \in 1..Len(A) |-> DSq(A[k], B[k])])
Size(r, P) == LET c == Mean(r, P, [i \in Rows(r) |-> i]) IN FSqrt(FoldFunction(FMax, 0, [i \in Rows(r) |-> DSq(P[i], c)]))
SamePos(a, b, sc) == FLe(DSq(a, b), FMul("1e-14", FMul(sc, sc)))
Distinct(S, sc) == \A i, j \in DOMAIN S : i < j => ~SamePos(S[i], S[j], sc)

KMFailing(r) ==
  LET P == TLCEval([i \in Rows(r) |-> TLCEval(Place(r, r.pts[i]))])
      \* (a catalog with ra and dec makes its patches on the sphere)
      Pc == IF r.cat = << >> THEN P ELSE TLCEval([i \in Rows(r) |-> IF r.coords \in {"sphere", "sphere3"} THEN Unit(Cart(r.coords, r.pts[i])) ELSE Cart(r.coords, r.pts[i])])
      sc == TLCEval(FoldFunction(FMax, "1e-30", [i \in Rows(r) |-> Norm(P[i])]))
      N == r.npatch
      st == TLCEval([q \in 1..Len(r.steps) |-> [c |-> TLCEval([k \in 1..Len(r.steps[q].c) |-> P3(r.steps[q].c[k])]), lab |-> r.steps[q].lab]])
      fin == [c |-> TLCEval([k \in 1..Len(r.final.c) |-> P3(r.final.c[k])]), lab |-> r.final.lab]
      \* (initial centers at the same place are moved apart by 1e-8, on a sphere along the line of sight, which does not count)
      tol == IF r.field = "spherical" THEN FMul(40, Tol(sc)) ELSE Tol(sc)
      WellFormed(x) == Len(x.lab) = Len(r.pts) /\ Len(x.c) = N /\ \A i \in DOMAIN x.lab : x.lab[i] >= 0 /\ x.lab[i] < N
      D == TLCEval([q \in 1..Len(st) |-> Dist(P, st[q].c)])
      B == TLCEval([q \in 1..Len(st) |-> BestOf(D[q])])
      Df == TLCEval(Dist(P, fin.c))
      Bf == TLCEval(BestOf(Df))
      tied(q) == {i \in Rows(r) : Cardinality(NearestSet(D[q], B[q], i, tol)) > 1}
      \* the center expected after step q, unless an object of it is tied or it has none
      sure(q, k) == Len(Members(st[q].lab, k)) > 0 /\ \A i \in tied(q) : k \notin NearestSet(D[q], B[q], i, tol)
      \* (on a sphere the mean is taken over cells, each moved out to the sphere: right to third order in the extent of the patch)
      AtMean(c, k, m) == LET mu == Mean(r, P, m)
                             d2 == FoldFunction(FMax, 0, [q \in 1..Len(m) |-> DSq(P[m[q]], mu)])
                         IN \/ SamePos(c, mu, sc)
                            \/ /\ r.field = "spherical"
                               /\ FLe(FSqrt(DSq(c, mu)), FDiv(FMul(d2, FSqrt(d2)), FMax("1e-9", FSub(2, d2))))
      stepOK(q) == \A k \in 1..N : sure(q, k) => AtMean(st[q + 1].c[k], k, Members(st[q].lab, k))
      I(q) == Inertia(r, P, st[q].c, st[q].lab)
      \* what the approximate means on a sphere may cost
      slack(q) == IF r.field # "spherical" THEN 0
                  ELSE FSum([k \in 1..N |-> LET m == Members(st[q].lab, k) IN
                               IF m = << >> THEN 0 ELSE FMul(FSum([j \in 1..Len(m) |-> r.w[m[j]]]), DSq(st[q + 1].c[k], Mean(r, P, m)))])
      \* where a complete run stops: after the first step with a small enough shift, or after max_iter steps
      lim == FMul(FMul(FMul(r.tol, r.tol), FMul(Size(r, P), Size(r, P))), N)
      sh == TLCEval([q \in 1..(Len(st) - 1) |-> Shift(st[q].c, st[q + 1].c)])
      stops == {q \in 1..(Len(st) - 1) : FLt(sh[q], lim) \/ q = r.max_iter}
      stop == CHOOSE q \in stops : \A p \in stops : q <= p
      edge == \E q \in 1..(Len(st) - 1) : FClose(sh[q], lim, "1e-6", "1e-28")
      isObj(c) == \E i \in Rows(r) : SamePos(c, P[i], sc)
      C0 == st[1].c
      ndist == Cardinality({i \in Rows(r) : \A j \in Rows(r) : j < i => ~SamePos(P[i], P[j], sc)})
  IN IF \E q \in 1..Len(st) : ~WellFormed(st[q]) THEN {"labels_malformed"}
     ELSE IF ~WellFormed(fin) THEN {"final_malformed"}
     ELSE (IF \A q \in 1..Len(st) : \A i \in Rows(r) : (st[q].lab[i] + 1) \in NearestSet(D[q], B[q], i, tol) THEN {} ELSE {"not_nearest"})
          \cup (IF \A i \in Rows(r) : (fin.lab[i] + 1) \in NearestSet(Df, Bf, i, tol) THEN {} ELSE {"final_not_nearest"})
          \cup (IF r.alt \/ \A q \in 1..(Len(st) - 1) : stepOK(q) THEN {} ELSE {"center_not_mean"})
          \cup (IF r.alt \/ \A q \in 1..(Len(st) - 1) : FLe(I(q + 1), FAdd(FAdd(FMul(I(q), "1.000000001"), slack(q)), FMul(tol, Len(r.pts)))) THEN {} ELSE {"inertia_increased"})
          \cup (IF edge \/ stops = {} \/ \A k \in 1..N : SamePos(fin.c[k], st[stop + 1].c[k], sc) THEN {} ELSE {"run_is_not_its_steps"})
          \cup (IF r.init = "tree" \/ \A k \in 1..N : isObj(C0[k]) THEN {} ELSE {"initial_center_not_an_object"})
          \cup (IF r.init # "kmeans++" \/ ndist < N \/ Distinct(C0, sc) THEN {} ELSE {"initial_centers_repeat"})
          \cup (IF r.init = "tree" \/ ndist < Len(r.pts) \/ Distinct(C0, sc) THEN {} ELSE {"initial_centers_repeat"})
          \cup (IF r.alt \/ \A q \in 1..(Len(st) - 1) : \A k \in 1..N : (Members(st[q].lab, k) = << >> /\ \A i \in tied(q) : k \notin NearestSet(D[q], B[q], i, tol)) => SamePos(st[q + 1].c[k], st[q].c[k], sc) THEN {} ELSE {"empty_patch_moved"})
          \cup (IF r.repeated \/ (~r.one /\ (edge \/ stops = {} \/ r.alt \/ \E q \in 1..Len(st) : tied(q) # {})) THEN {} ELSE {"not_reproducible"})
          \cup (IF r.composed \/ (~r.one /\ (edge \/ stops = {} \/ r.alt \/ \E q \in 1..Len(st) : tied(q) # {})) THEN {} ELSE {"run_is_not_its_parts"})
          \cup (IF r.cat = << >> THEN {}
                ELSE LET x == [c |-> [k \in 1..Len(r.cat.c) |-> P3(r.cat.c[k])], lab |-> r.cat.lab] IN
                     IF ~WellFormed(x) \/ r.cat.npatch # N THEN {"catalog_patches"}
                     ELSE LET Dc == TLCEval(Dist(Pc, x.c))
                              Bc == TLCEval(BestOf(Dc))
                          IN IF \A i \in Rows(r) : (x.lab[i] + 1) \in NearestSet(Dc, Bc, i, tol) THEN {} ELSE {"catalog_patches"})
          \cup (IF edge \/ \E q \in 1..Len(st) : tied(q) # {} THEN {"@ambiguous"} ELSE {})
          \cup (IF Len(st) > 2 THEN {"@nontrivial"} ELSE {})
KMJudge(r) == IF r.err # "" THEN {"raised"} ELSE KMFailing(r)
=============================================================================
