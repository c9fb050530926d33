------------------------------- MODULE TriOut -------------------------------
(* What the published arrays of a three-point correlation have to be.         *)
EXTENDS TriSpec, Json, IOUtils

TOL3 == "1e-7"
Eq3(x, e, s) == FClose(x, e, TOL3, FMul("1e-9", s))
Rep(r, x) == FDiv(IF r.chord THEN FMul(2, FAsin(FDiv(x, 2))) ELSE x, r.unit)
RepLog(r, x) == FLog(Rep(r, FExp(x)))

Entries(r, raw) ==
  LET bn == r.bn
      X == TLCEval([i \in 1..Len(r.pool) |-> TLCEval(Cart(r.coords, r.pool[i].p))])
      D == TLCEval([i \in 1..Len(X) |-> TLCEval([j \in 1..Len(X) |-> TLCEval(Sep(bn.metric, bn.per, X[i], X[j]))])])
      sky == IF r.coords = "flat" THEN "flat" ELSE "sky"
      bn2 == IF raw THEN Flat0(bn) ELSE bn
      idx == TLCEval(Assignments(r.mode, r.n, r.ordered))
  IN TLCEval(SelectSeq([q \in 1..Len(idx) |->
                 TLCEval(EvalTri(sky, bn, bn2, r.letter, X, D, r.pool, idx[q]))],
               LAMBDA e : e.k # 0 \/ e.amb))

Sum3(S, F(_)) == FSum([q \in 1..Len(S) |-> F(S[q])])
Abs3(S, F(_)) == FAbsSum([q \in 1..Len(S) |-> F(S[q])])

Sides(r, S, k, W, absW) ==
  LET o == r.out
      cond == FDiv(absW, FAbs(W))
      M(F(_)) == FDiv(Sum3(S, F), W)
      side(i, mean, logm) ==
        (IF Eq3(mean, Rep(r, M(LAMBDA q : FMul(q.w, q.d[i]))), FMul(cond, FMul(3, r.bn.max))) THEN {} ELSE {"meand"})
        \cup (IF FClose(logm, RepLog(r, M(LAMBDA q : FMul(q.w, FLog(q.d[i])))), TOL3, FMul("1e-7", cond)) THEN {} ELSE {"meanlogd"})
  IN (IF r.bn.type = "LogMultipole" THEN {} ELSE side(1, o.meand1[k], o.meanlogd1[k]))
     \cup side(2, o.meand2[k], o.meanlogd2[k]) \cup side(3, o.meand3[k], o.meanlogd3[k])

Shape(r, S, k, W, absW) ==
  LET o == r.out
      cond == FDiv(absW, FAbs(W))
      M(F(_)) == FDiv(Sum3(S, F), W)
      d2 == M(LAMBDA q : FMul(q.w, q.d[2])) d3 == M(LAMBDA q : FMul(q.w, q.d[3]))
      phi == M(LAMBDA q : FMul(q.w, q.a))
      h(x) == FSub(1, FDiv(FMul(x, x), 4))
      sph == ACos(FDiv(FSub(FCos(phi), FDiv(FMul(d2, d3), 4)), FSqrt(FMul(h(d2), h(d3)))))
  IN IF r.bn.type = "LogRUV"
     THEN (IF Eq3(o.meanu[k], phi, cond) THEN {} ELSE {"meanu"})
          \cup (IF Eq3(o.meanv[k], M(LAMBDA q : FMul(q.w, q.b)), cond) THEN {} ELSE {"meanv"})
     ELSE IF FClose(o.meanphi[k], FDiv(IF r.chord THEN sph ELSE phi, r.phiunit), TOL3, FDiv(FMul("1e-6", cond), r.phiunit)) THEN {} ELSE {"meanphi"}

Terms(S, m, part) == [q \in 1..Len(S) |-> S[q].c[m][part]]
FieldNames(r) == IF r.letter = "K" THEN <<"zeta">> ELSE <<"gam0", "gam1", "gam2", "gam3">>
Im(nm) == nm \o "_im"

BadBin3(r, P, k) ==
  LET S == TLCEval(SelectSeq(P, LAMBDA q : q.k = k))
      W == Sum3(S, LAMBDA q : q.w)
      absW == Abs3(S, LAMBDA q : q.w)
      o == r.out
      nC == IF Len(S) = 0 THEN 0 ELSE Len(S[1].c)
      scale(m) == FAdd(FAbsSum(Terms(S, m, 1)), FAbsSum(Terms(S, m, 2)))
  IN (IF FEq(o.ntri[k], Len(S)) THEN {} ELSE {"ntri"})
     \cup (IF Eq3(o.weight[k], W, absW) THEN {} ELSE {"weight"})
     \cup (IF FEq(W, 0) \/ FLt(FAbs(W), FMul("1e-6", absW)) THEN {}
           ELSE Sides(r, S, k, W, absW) \cup Shape(r, S, k, W, absW)
                \cup UNION {LET nm == FieldNames(r)[m]
                            IN IF /\ Eq3(o[nm][k], FDiv(FSum(Terms(S, m, 1)), W), FDiv(scale(m), FAbs(W)))
                                  /\ (r.letter = "K" \/ Eq3(o[Im(nm)][k], FDiv(FSum(Terms(S, m, 2)), W), FDiv(scale(m), FAbs(W))))
                               THEN {} ELSE {nm} : m \in 1..nC})

\* Multipole coefficients: everything times exp(-i n phi), not normalised
ZPow(z, n) == IF n < 0 THEN CPow(CConj(z), 0 - n) ELSE CPow(z, n)
BadRow(r, P, k) ==
  LET S == TLCEval(SelectSeq(P, LAMBDA q : q.k = k))
      W == Sum3(S, LAMBDA q : q.w)
      absW == Abs3(S, LAMBDA q : q.w)
      o == r.out
      mx == r.bn.maxn
      nC == IF Len(S) = 0 THEN 0 ELSE Len(S[1].c)
      at(n) == (k - 1) * (2 * mx + 1) + mx + n + 1
      \* objects paired with themselves are subtracted off, which leaves rounding of the size of the whole sum
      Cube(x) == FMul("1e-5", FMul(x, FMul(x, x)))
      aw == Cube(FAbsSum([i \in 1..Len(r.pool) |-> r.pool[i].w]))
      av == Cube(FAdd(FAbsSum([i \in 1..Len(r.pool) |-> FMul(r.pool[i].w, r.pool[i].v[1])]),
                      FAbsSum([i \in 1..Len(r.pool) |-> FMul(r.pool[i].w, r.pool[i].v[2])])))
      tight(n) == FMul(1 + (IF n < 0 THEN 0 - n ELSE n), 1)
      Z(n) == TLCEval([q \in 1..Len(S) |-> ZPow(S[q].z, n)])
      BadN(n) ==
        LET z == Z(n)
            T(i) == FSum([q \in 1..Len(S) |-> FMul(S[q].w, z[q][i])])
            C(m, i) == FSum([q \in 1..Len(S) |-> CMul(S[q].c[m], z[q])[i]])
            sc(m) == FAdd(av, FMul(tight(n), FAdd(FAbsSum(Terms(S, m, 1)), FAbsSum(Terms(S, m, 2)))))
        IN (IF FEq(o.ntri[at(n)], Len(S)) THEN {} ELSE {"ntri"})
           \cup (IF Eq3(o.weight[at(n)], T(1), FAdd(aw, FMul(tight(n), absW))) /\ Eq3(o.weight_im[at(n)], T(2), FAdd(aw, FMul(tight(n), absW))) THEN {}
                 ELSE {IF n = 0 THEN "weight" ELSE "weight_n"})
           \cup UNION {LET nm == FieldNames(r)[m]
                       IN IF Eq3(o[nm][at(n)], C(m, 1), sc(m)) /\ Eq3(o[Im(nm)][at(n)], C(m, 2), sc(m)) THEN {} ELSE {nm}
                       : m \in 1..nC}
           \cup (IF FEq(W, 0) \/ FLt(FAbs(W), FMul("1e-6", absW)) THEN {} ELSE Sides(r, S, at(n), W, absW))
  IN UNION {BadN(n) : n \in (0 - mx)..mx}

Tot3(r) ==
  LET s(lo, n) == FSum([i \in 1..n |-> r.pool[lo + i].w])
      a == s(0, r.n[1]) b == s(r.n[1], r.n[2]) c == s(r.n[1] + r.n[2], r.n[3])
  IN CASE r.mode = 0 -> FDiv(FMul(a, FMul(a, a)), 6)
       [] r.mode = 12 -> FDiv(FMul(a, FMul(b, b)), 2)
       [] OTHER -> FMul(a, FMul(b, c))

Tri0(r, raw) ==
  LET P == Entries(r, raw)
  IN IF \E q \in 1..Len(P) : P[q].amb THEN {"@ambiguous"}
     ELSE UNION {(IF r.bn.type = "LogMultipole" THEN BadRow(r, P, k) ELSE BadBin3(r, P, k)) : k \in 1..NBins3(r.bn)}
          \cup (IF Len(r.tot) = 0 \/ Eq3(r.tot[1], Tot3(r), 1) THEN {} ELSE {"tot"})
          \cup (IF Len(P) = 0 THEN {"@empty"} ELSE {"@nontrivial"})

\* Known finding: with the Periodic metric, directions are those of the unwrapped positions
TriFields == {"gam0", "gam1", "gam2", "gam3", "zeta", "weight_n"}
TriJudge(r) ==
  IF r.err # "" THEN {"raised"}
  ELSE LET f == Tri0(r, FALSE)
       IN IF r.bn.metric = "Periodic" /\ (f \ {"@nontrivial"}) # {} /\ (f \ {"@nontrivial"}) \subseteq TriFields
             /\ Tri0(r, TRUE) \subseteq {"@nontrivial"}
          THEN {"periodic_raw"} ELSE f
=============================================================================
