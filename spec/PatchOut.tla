------------------------------ MODULE PatchOut ------------------------------
(* Two-point correlations over catalogs divided into patches.                 *)
(* r.c1/r.c2 objects carry `patch`; r.results is the list of stored partial    *)
(* results; r.n1, r.n2 the numbers of patches; r.local the patch method.       *)
EXTENDS PairOut

\* Patch indices of the two objects of an evaluated pair q (stored as q.i, q.j positions in the catalogs)
\* All evaluated, in-range pairs with the key of the partial result each must be in.
\* global, auto  : key <<min patch, max patch>>, each unordered pair once
\* global, cross : key <<patch1, patch2>>
\* local         : key <<patch1, patch1>>; auto counts both orders
PPairs(r) ==
  LET co == r.coords
      A == Carts(co, r.c1) B == IF r.auto THEN A ELSE Carts(r.coords2, r.c2)
      pa == r.c1 pb == IF r.auto THEN r.c1 ELSE r.c2
      sky == IF co = "flat" THEN "flat" ELSE "sky"
      both == r.auto /\ (r.bn.type = "TwoD" \/ r.local)
      idx == IF r.auto THEN AutoPairs(Len(pa), both) ELSE CrossPairs(Len(pa), Len(pb))
      Key(p, q) == IF r.local THEN <<p, p>> ELSE IF r.auto /\ p > q THEN <<q, p>> ELSE <<p, q>>
      One(q) == LET i == idx[q][1] j == idx[q][2]
                IN EvalPair(co, r.bn, r.l1, r.l2, A, B, pa, pb, i, j, FALSE, sky)
                   @@ [key |-> Key(pa[i].patch, pb[j].patch)]
  IN TLCEval([q \in 1..Len(idx) |-> TLCEval(One(q))])

PatchW(cat, p) == FSum([i \in 1..Len(cat) |-> IF cat[i].patch = p THEN cat[i].w ELSE 0])
TotW(cat) == FSum([i \in 1..Len(cat) |-> cat[i].w])

\* Partial totals of NN: number of possible (weighted) pairs between the two patches
TotOf(r, i, j) ==
  IF r.local THEN FMul(PatchW(r.c1, i), TotW(IF r.auto THEN r.c1 ELSE r.c2))
  ELSE IF r.auto THEN (IF i = j THEN FMul("0.5", FMul(PatchW(r.c1, i), PatchW(r.c1, i)))
                       ELSE FMul(PatchW(r.c1, i), PatchW(r.c1, j)))
  ELSE FMul(PatchW(r.c1, i), PatchW(r.c2, j))
FullTot(r) == LET s1 == TotW(r.c1) IN
  IF r.auto THEN FMul(IF r.local THEN 1 ELSE "0.5", FMul(s1, s1)) ELSE FMul(s1, TotW(r.c2))

\* One stored partial result e against the pairs P it must consist of (unnormalised sums)
BadEntry(r, P, e, co) ==
  LET Mine == TLCEval(SelectSeq(P, LAMBDA q : q.k # 0 /\ q.key = <<e.i, e.j>>))
      B(k) == LET S == TLCEval(InBin(Mine, k))
                  nC == IF Len(S) = 0 THEN 0 ELSE Len(S[1].c)
                  SumOK(m, part, obs) ==
                    Eq(obs, FSum([q \in 1..Len(S) |-> S[q].c[m][part]]),
                       FAdd(FAbsSum([q \in 1..Len(S) |-> S[q].c[m][1]]), FAbsSum([q \in 1..Len(S) |-> S[q].c[m][2]])))
              IN (IF FEq(e.npairs[k], Len(S)) THEN {} ELSE {"part_npairs"})
                 \cup (IF Eq(e.weight[k], RealSum(S, LAMBDA q : q.w), AbsSum(S, LAMBDA q : q.w)) THEN {} ELSE {"part_weight"})
                 \cup (IF nC = 0 THEN {}
                       ELSE IF nC = 1 THEN (IF SumOK(1, 1, e.xi[k]) /\ (Len(e.xi_im) = 0 \/ SumOK(1, 2, e.xi_im[k]))
                                            THEN {} ELSE {"part_xi"})
                       ELSE IF SumOK(1, 1, e.xi[k]) /\ (r.skipim \/ SumOK(1, 2, e.xi_im[k]))
                               /\ SumOK(2, 1, e.xim[k]) /\ SumOK(2, 2, e.xim_im[k]) THEN {} ELSE {"part_xi"})
  IN (IF Len(Mine) = 0 /\ FEq(FSum(e.npairs), 0) /\ co = {} THEN {} ELSE UNION {B(k) : k \in (1..NOut(r.bn)) \ co})
     \cup (IF Len(e.tot) = 0 \/ Eq(e.tot[1], TotOf(r, e.i, e.j), 1) THEN {} ELSE {"part_tot"})

PatchFailing(r) ==
  IF r.err # "" THEN {"raised"}
  ELSE
      LET P == PPairs(r)
           keys == {<<e.i, e.j>> : e \in {r.results[x] : x \in 1..Len(r.results)}}
           need == {P[q].key : q \in {x \in 1..Len(P) : P[x].k # 0}}
           co == Coincident(r.bn, r.auto, P, r.local)
       IN IF \E q \in 1..Len(P) : P[q].amb THEN {"@ambiguous"}
          ELSE UNION {BadBin(r, P, k) : k \in (1..NOut(r.bn)) \ co}
               \cup (IF co = {} THEN {} ELSE CoincidentBin(r, P, r.local))
               \cup UNION {BadEntry(r, P, r.results[x], co) : x \in 1..Len(r.results)}
               \cup (IF r.nopatch \/ need \subseteq keys THEN {} ELSE {"part_missing"})
               \cup (IF Cardinality(keys) = Len(r.results) THEN {} ELSE {"part_repeated"})
               \cup (IF Len(r.tot) = 0 \/ Eq(r.tot[1], FullTot(r), 1) THEN {} ELSE {"tot"})
               \cup (IF Len(r.tot) = 0 \/ r.nopatch \/ Eq(FSum([x \in 1..Len(r.results) |-> r.results[x].tot[1]]), FullTot(r), 1)
                     THEN {} ELSE {"part_tot_sum"})
               \cup (IF need = {} THEN {"@empty"} ELSE IF Cardinality(need) > 1 THEN {"@nontrivial"} ELSE {})
=============================================================================
