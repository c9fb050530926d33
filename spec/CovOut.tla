------------------------------- MODULE CovOut -------------------------------
(* Patch-based resampling covariances.                                        *)
(* r.corrs: the correlations (as in PatchOut) whose statistics are stacked;    *)
(* r.np patches; r.method; r.func which statistic; r.draws the random patch    *)
(* draws of the bootstraps; r.v, r.w the recorded design matrix and weights,   *)
(* r.C the recorded covariance matrix.                                         *)
EXTENDS PatchOut

\* ------------------------------------------------- which results enter a row
\* Multiplicity of the partial result with key <<a,b>> in the row for patch i / draw d (0-based patches)
Side(c, a, b) == IF c.n2 = 1 THEN a ELSE b          \* the only divided side, when just one of them is
OneSided(c) == c.n1 = 1 \/ c.n2 = 1
Count(d, a) == Len(SelectSeq(d, LAMBDA x : x = a))
Mult(m, c, a, b, i, d) ==
  CASE m = "jackknife" -> IF OneSided(c) THEN (IF Side(c, a, b) # i THEN 1 ELSE 0)
                          ELSE IF a # i /\ b # i THEN 1 ELSE 0
    [] m = "sample"    -> IF OneSided(c) THEN (IF Side(c, a, b) = i THEN 1 ELSE 0) ELSE IF a = i THEN 1 ELSE 0
    [] m = "marked_bootstrap" -> IF OneSided(c) THEN Count(d, Side(c, a, b)) ELSE Count(d, a)
    [] m = "bootstrap" -> IF OneSided(c) THEN Count(d, Side(c, a, b))
                          ELSE IF a = b THEN Count(d, a) ELSE Count(d, a) * Count(d, b)

\* ------------------------------------------------------- statistic of a row
\* weighted sum of a bin over the evaluated pairs, each with the multiplicity of the partial result it is in
RowBin(m, c, S, i, d) ==
  LET M == [q \in 1..Len(S) |-> Mult(m, c, S[q].key[1], S[q].key[2], i, d)]
      W == FSum([q \in 1..Len(S) |-> FMul(M[q], S[q].w)])
      nC == IF Len(S) = 0 THEN 0 ELSE Len(S[1].c)
      X(x, part) == LET t == FSum([q \in 1..Len(S) |-> FMul(M[q], S[q].c[x][part])])
                    IN IF FEq(W, 0) THEN t ELSE FDiv(t, W)
      scale == IF nC = 0 THEN 1
               ELSE LET t == FSum([q \in 1..Len(S) |-> FMul(M[q], FAdd(FAbs(S[q].c[1][1]), FAbs(S[q].c[1][2])))])
                    IN IF FEq(W, 0) THEN t ELSE FDiv(t, W)
  IN [n |-> FSum([q \in 1..Len(S) |-> M[q]]), w |-> W, nc |-> nC, scale |-> FMax(scale, "1e-300"),
      xi |-> IF nC = 0 THEN 0 ELSE X(1, 1), im |-> IF nC = 0 THEN 0 ELSE X(1, 2),
      xm |-> IF nC < 2 THEN 0 ELSE X(2, 1)]

Two(c) == c.l1 \notin {"N", "K"}        \* complex x complex: two statistics
\* data vector of one correlation in one row: sequence of <<value, scale>>
VecOf(func, c, R) ==
  LET n == Len(R)
      Col(f(_), s(_)) == [k \in 1..n |-> <<f(R[k]), s(R[k])>>]
      one(x) == 1
      sc(x) == x.scale
  IN CASE func = "weight" -> Col(LAMBDA x : x.w, one)
       [] func = "npairs" -> Col(LAMBDA x : x.n, one)
       [] func = "im"     -> Col(LAMBDA x : x.im, sc)
       [] func = "stat"   -> Col(LAMBDA x : x.xi, sc) \o (IF Two(c) THEN Col(LAMBDA x : x.xm, sc) ELSE << >>)

RowOf(r, PB, i, d) ==     \* PB[x][k]: pairs of correlation x in bin k
  LET R(x) == TLCEval([k \in 1..NOut(r.corrs[x].bn) |-> TLCEval(RowBin(r.method, r.corrs[x], PB[x][k], i, d))])
      RR == TLCEval([x \in 1..Len(r.corrs) |-> TLCEval(R(x))])
      RECURSIVE Cat(_)
      Cat(x) == IF x > Len(r.corrs) THEN << >> ELSE VecOf(r.func, r.corrs[x], RR[x]) \o Cat(x + 1)
  IN [v |-> TLCEval(Cat(1)),
      w |-> FSum([x \in 1..Len(r.corrs) |->
                   FMul(IF Two(r.corrs[x]) THEN 2 ELSE 1, FSum([k \in 1..Len(RR[x]) |-> RR[x][k].w]))])]

NRows(r) == IF r.method \in {"jackknife", "sample"} THEN r.np ELSE r.nboot

\* ---------------------------------------------------------- the covariance
\* from the (recorded, separately judged) design matrix
CovOK(r, V, Wt) ==
  LET n == Len(V) m == Len(V[1])
      mean == TLCEval([a \in 1..m |-> FDiv(FSum([i \in 1..n |-> V[i][a]]), n)])
      D == TLCEval([i \in 1..n |-> [a \in 1..m |-> FSub(V[i][a], mean[a])]])
      big == TLCEval([a \in 1..m |-> FSum([i \in 1..n |-> FAbs(V[i][a])])])
      sw == FSum(Wt)
      Norm1(i) == CASE r.method = "jackknife" -> FSub(1, FDiv(1, n))
                   [] r.method = "sample" -> FDiv(Wt[i], FMul(sw, n - 1))
                   [] OTHER -> FDiv(1, n - 1)
  IN \A a \in 1..m : \A b \in 1..m :
        FClose(r.C[a][b], FSum([i \in 1..n |-> FMul(Norm1(i), FMul(D[i][a], D[i][b]))]), "1e-8",
               FMul("1e-12", FMul(big[a], big[b])))

CovFailing(r) ==
  LET nr == NRows(r)
      PB == TLCEval([x \in 1..Len(r.corrs) |->
              LET P == PPairs(r.corrs[x]) IN
                IF \E q \in 1..Len(P) : P[q].amb THEN << >>
                ELSE IF Coincident(r.corrs[x].bn, r.corrs[x].auto, P, r.corrs[x].local) # {} THEN << >>
                ELSE TLCEval([k \in 1..NOut(r.corrs[x].bn) |-> TLCEval(InBin(P, k))])])
      drawn == r.method \in {"bootstrap", "marked_bootstrap"}
      drawsOK == ~drawn \/ (Len(r.draws) = nr /\ \A i \in 1..nr : Len(r.draws[i]) = r.np /\
                            \A q \in 1..r.np : r.draws[i][q] >= 0 /\ r.draws[i][q] < r.np)
  IN IF \E x \in 1..Len(r.corrs) : PB[x] = << >> THEN {"@ambiguous"}
     ELSE IF ~drawsOK THEN {"draws"}
     ELSE LET Rows == TLCEval([i \in 1..nr |-> TLCEval(RowOf(r, PB, i - 1, IF drawn THEN r.draws[i] ELSE << >>))])
              mustraise == r.method = "sample" /\ \E i \in 1..nr : FEq(Rows[i].w, 0)
              vOK == Len(r.v) = nr /\ \A i \in 1..nr :
                       Len(r.v[i]) = Len(Rows[i].v) /\ \A a \in 1..Len(r.v[i]) :
                           FClose(r.v[i][a], Rows[i].v[a][1], TOL, FMul("1e-9", Rows[i].v[a][2]))
              wOK == r.corrs[1].l2 = "N" \/ (Len(r.w) = nr /\ \A i \in 1..nr : FClose(r.w[i], Rows[i].w, "1e-7", "1e-10"))
          IN (IF vOK THEN {} ELSE {"design"})
             \cup (IF wOK THEN {} ELSE {"design_weights"})
             \cup (IF mustraise THEN (IF r.raised THEN {} ELSE {"sample_of_empty_patch_accepted"})
                   ELSE IF r.raised THEN {"raised"}
                   ELSE IF vOK /\ wOK /\ CovOK(r, r.v, r.w) THEN {} ELSE IF vOK /\ wOK THEN {"cov"} ELSE {})
             \cup (IF r.unchanged THEN {} ELSE {"estimate_changed_the_correlation"})
             \cup (IF nr > 1 /\ \E a \in 1..Len(Rows[1].v) : ~FClose(Rows[1].v[a][1], Rows[2].v[a][1], "1e-6", "1e-9")
                   THEN {"@nontrivial"} ELSE {})

\* ---------------------------------------------------------------- shot noise
\* variance of a field per component: Sum w^2 (v - mean)^2 / Sum w, mean = Sum w v / Sum w
VarOf(l, cat) ==
  LET n == Len(cat)
      sw == FSum([i \in 1..n |-> cat[i].w])
      V(part) == LET mean == FDiv(FSum([i \in 1..n |-> FMul(cat[i].w, cat[i].v[part])]), sw)
                 IN FDiv(FSum([i \in 1..n |-> FMul(FMul(cat[i].w, cat[i].w),
                                    FMul(FSub(cat[i].v[part], mean), FSub(cat[i].v[part], mean)))]), sw)
  IN IF l = "N" THEN 1 ELSE IF l = "K" THEN V(1) ELSE FDiv(FAdd(V(1), V(2)), 2)
ShotNum(c) == LET c2 == IF c.auto THEN c.c1 ELSE c.c2
              IN FMul(IF Two(c) THEN 2 ELSE 1, FMul(VarOf(c.l1, c.c1), VarOf(c.l2, c2)))
ShotFailing(r) ==
  LET RECURSIVE Cat(_)
      One(c) == LET num == ShotNum(c)
                    \* the weights themselves are judged by C01; here the recorded ones are used
                    d == [k \in 1..Len(c.weight) |-> IF FEq(c.weight[k], 0) THEN 0 ELSE FDiv(num, c.weight[k])]
                IN IF Two(c) THEN d \o d ELSE d
      Cat(x) == IF x > Len(r.corrs) THEN << >> ELSE One(r.corrs[x]) \o Cat(x + 1)
      e == TLCEval(Cat(1))
  IN IF r.raised THEN {"raised"}
     ELSE IF Len(r.shot) = Len(e) /\ \A a \in 1..Len(e) : FClose(r.shot[a], e[a], "1e-7", "1e-12") THEN {} ELSE {"shot"}

CovJudge(r) == IF r.err # "" THEN {"raised"}
              ELSE (IF r.method = "shot" THEN ShotFailing(r) ELSE CovFailing(r))
                   \cup (IF r.varok THEN {} ELSE {"var_attribute"})
=============================================================================
