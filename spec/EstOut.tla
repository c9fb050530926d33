------------------------------- MODULE EstOut -------------------------------
(* Count estimators: data and random counts combined by the stated formulas,  *)
(* for the full counts and for every resampling of the patches.               *)
(* A count set x has: n (patch numbers per catalog, 2 or 3 of them),          *)
(* full [w, np, tot], parts: sequence of [key, w, tot].                       *)
EXTENDS FP, Naturals, Integers, Sequences, FiniteSets, TLC

\* ------------------------------------------ multiplicity of a partial result
\* key = patch numbers (0-based); only the positions whose catalog is divided select anything
Divided(n) == SelectSeq([p \in 1..Len(n) |-> p], LAMBDA p : n[p] # 1)
Count(d, a) == Len(SelectSeq(d, LAMBDA x : x = a))
RECURSIVE Prod(_)
Prod(s) == IF Len(s) = 0 THEN 1 ELSE s[1] * Prod(Tail(s))
Distinct(s) == SelectSeq([p \in 1..Len(s) |-> p], LAMBDA p : \A q \in 1..(p - 1) : s[q] # s[p])
Mult(m, n, key, i, d) ==
  LET D == Divided(n)
      k == [p \in 1..Len(D) |-> key[D[p]]]
      U == Distinct(k)
  IN IF Len(D) = 0 THEN 1
     ELSE CASE m = "jackknife" -> IF \E p \in 1..Len(k) : k[p] = i THEN 0 ELSE 1
            [] m = "sample" -> IF k[1] = i THEN 1 ELSE 0
            [] m = "marked_bootstrap" -> Count(d, k[1])
            [] m = "bootstrap" -> Prod([p \in 1..Len(U) |-> Count(d, k[U[p]])])

\* resampled counts of one count set: [w, tot, some]
Resample(m, x, i, d) ==
  LET P == x.parts
      M == [q \in 1..Len(P) |-> Mult(m, x.n, P[q].key, i, d)]
      nb == Len(x.full.w)
  IN [w |-> [k \in 1..nb |-> FSum([q \in 1..Len(P) |-> IF M[q] = 0 THEN 0 ELSE FMul(M[q], P[q].w[k])])],
      tot |-> FSum([q \in 1..Len(P) |-> FMul(M[q], P[q].tot)])]

\* fraction of the area that a resampling covers, for counts that were not divided into patches:
\* the number of possible tuples within one patch goes as area^(number of objects in the tuple)
AllEqual(k) == \A p \in 1..Len(k) : k[p] = k[1]
Root(nc, x) == IF FLe(x, 0) THEN 0 ELSE FExp(FDiv(FLog(x), nc))
AreaFrac(m, x, i, d) ==
  LET P == x.parts
      one == Len(Divided(x.n)) < Len(x.n)      \* only some catalogs are divided: proportional to the area
      A(q) == IF one THEN P[q].tot ELSE IF AllEqual(P[q].key) THEN Root(Len(x.n), P[q].tot) ELSE 0
      a == TLCEval([q \in 1..Len(P) |-> A(q)])
  IN FDiv(FSum([q \in 1..Len(P) |-> FMul(Mult(m, x.n, P[q].key, i, d), a[q])]), FSum(a))

\* --------------------------------------------------------------- the formulas
\* DD, RR etc: [w, tot]; none = << >>.  Each is normalised to the total of dd (ddtot).
Norm(x, ddtot) == LET f == FDiv(ddtot, x.tot) IN TLCEval([k \in 1..Len(x.w) |-> FMul(x.w[k], f)])
Guard(x) == IF FEq(x, 0) THEN 1 ELSE x
Xi(three, dd, rr, dr, rd, ddtot) ==
  LET R == Norm(rr, ddtot)
      X == IF dr = << >> THEN << >> ELSE Norm(dr[1], ddtot)      \* dr (2pt) or drr (3pt)
      Y == IF rd = << >> THEN << >> ELSE Norm(rd[1], ddtot)      \* rd (2pt) or rdd (3pt)
      Num(k) ==
        IF three
        THEN IF dr = << >> THEN FSub(dd.w[k], R[k])
             ELSE FSub(FAdd(FSub(dd.w[k], Y[k]), X[k]), R[k])
        ELSE IF dr = << >> /\ rd = << >> THEN FSub(dd.w[k], R[k])
             ELSE IF dr = << >> THEN FAdd(FSub(dd.w[k], FMul(2, Y[k])), R[k])
             ELSE IF rd = << >> THEN FAdd(FSub(dd.w[k], FMul(2, X[k])), R[k])
             ELSE FAdd(FSub(FSub(dd.w[k], X[k]), Y[k]), R[k])
      Mag(k) == FAdd(FAdd(FAbs(dd.w[k]), FAbs(R[k])),
                     FAdd(IF dr = << >> THEN 0 ELSE FMul(2, FAbs(X[k])), IF rd = << >> THEN 0 ELSE FMul(2, FAbs(Y[k]))))
  IN [xi |-> [k \in 1..Len(R) |-> FDiv(Num(k), Guard(R[k]))],
      mag |-> [k \in 1..Len(R) |-> FAbs(FDiv(Mag(k), Guard(R[k])))],
      den |-> R]

\* shot noise: mean weight per pair of dd, times the square of 1 + the mean normalised random weights over it
MeanW(x) == LET np == FSum(x.np) IN IF FEq(np, 0) THEN 1 ELSE FDiv(FSum(x.w), np)
VarNum(three, dd, rr, dr, rd) ==
  LET Rel(x) == FDiv(FMul(FDiv(dd.tot, x.tot), MeanW(x)), MeanW(dd))
      F == IF three
           THEN IF dr = << >> THEN FAdd(1, Rel(rr)) ELSE FAdd(FAdd(1, Rel(dr[1])), FAdd(Rel(rd[1]), Rel(rr)))
           ELSE IF dr = << >> /\ rd = << >> THEN FAdd(1, Rel(rr))
           ELSE IF dr = << >> THEN FAdd(FAdd(1, FMul(2, Rel(rd[1]))), Rel(rr))
           ELSE IF rd = << >> THEN FAdd(FAdd(1, FMul(2, Rel(dr[1]))), Rel(rr))
           ELSE FAdd(FAdd(1, Rel(dr[1])), FAdd(Rel(rd[1]), Rel(rr)))
  IN FMul(MeanW(dd), FMul(F, F))

Opt(r, name) == IF name \in DOMAIN r.sets THEN <<r.sets[name]>> ELSE << >>
FullOf(o) == IF o = << >> THEN << >> ELSE <<o[1].full>>

\* one row of the design matrix (a bin without random pairs is divided by 1, and has that weight)
RowFor(r, dd, rr, dr, rd, m, i, d) ==
  LET DD == Resample(m, dd, i, d)
      patched == Len(rr.parts) > 0
      RR == IF patched THEN Resample(m, rr, i, d) ELSE rr.full
      ddall == FSum([q \in 1..Len(dd.parts) |-> dd.parts[q].tot])
      ddtot == IF patched THEN DD.tot ELSE FMul(ddall, AreaFrac(m, dd, i, d))
      DR == IF dr = << >> THEN << >> ELSE <<Resample(m, dr[1], i, d)>>
      RD == IF rd = << >> THEN << >> ELSE <<Resample(m, rd[1], i, d)>>
      none == \A q \in 1..Len(dd.parts) : Mult(m, dd.n, dd.parts[q].key, i, d) = 0
      nokey == none /\ (~patched \/ \A q \in 1..Len(rr.parts) : Mult(m, rr.n, rr.parts[q].key, i, d) = 0)
      bad == FEq(RR.tot, 0) \/ (dr # << >> /\ FEq(DR[1].tot, 0)) \/ (rd # << >> /\ FEq(RD[1].tot, 0))
  IN IF bad /\ ~nokey THEN [bad |-> TRUE]
     ELSE IF nokey THEN [bad |-> FALSE, xi |-> [k \in 1..Len(dd.full.w) |-> 0], mag |-> [k \in 1..Len(dd.full.w) |-> 0],
                         den |-> [k \in 1..Len(dd.full.w) |-> 0]]
     ELSE LET X == Xi(r.three, DD, RR, DR, RD, ddtot)
          IN [bad |-> FALSE, xi |-> X.xi, mag |-> X.mag, den |-> X.den]

CovFrom(m, V, Wt, C) ==
  LET n == Len(V) nb == Len(V[1])
      mean == TLCEval([a \in 1..nb |-> FDiv(FSum([i \in 1..n |-> V[i][a]]), n)])
      D == TLCEval([i \in 1..n |-> [a \in 1..nb |-> FSub(V[i][a], mean[a])]])
      big == TLCEval([a \in 1..nb |-> FAdd("1e-3", FSum([i \in 1..n |-> FAbs(V[i][a])]))])
      sw == FSum(Wt)
      N1(i) == CASE m = "jackknife" -> FSub(1, FDiv(1, n))
                 [] m = "sample" -> FDiv(Wt[i], FMul(sw, n - 1))
                 [] OTHER -> FDiv(1, n - 1)
  IN \A a \in 1..nb : \A b \in 1..nb :
       FClose(C[a][b], FSum([i \in 1..n |-> FMul(N1(i), FMul(D[i][a], D[i][b]))]), "1e-7",
              FMul("1e-12", FMul(big[a], big[b])))

Close(obs, e) == Len(obs) = Len(e) /\ \A k \in 1..Len(e) : FClose(obs[k], e[k], "1e-8", "1e-12")
CloseM(obs, e, mag) == Len(obs) = Len(e) /\ \A k \in 1..Len(e) : FClose(obs[k], e[k], "1e-8", FMul("1e-9", FAdd(mag[k], "1e-6")))

EstOne(r, e) ==      \* one recorded covariance estimate e of calculation r
  LET dd == r.sets["dd"] rr == r.sets["rr"] dr == Opt(r, "dr") rd == Opt(r, "rd")
      m == e.method
      drawn == m \in {"bootstrap", "marked_bootstrap"}
      nr == IF drawn THEN r.nboot ELSE r.np
      Rows == TLCEval([i \in 1..nr |-> TLCEval(RowFor(r, dd, rr, dr, rd, m, i - 1, IF drawn THEN e.draws[i] ELSE << >>))])
      W == TLCEval([i \in 1..nr |-> IF Rows[i].bad THEN 0 ELSE FSum([k \in 1..Len(Rows[i].den) |-> Guard(Rows[i].den[k])])])
      mustraise == m = "sample" /\ \E i \in 1..nr : FEq(W[i], 0)
      vOK == Len(e.v) = nr /\ \A i \in 1..nr : CloseM(e.v[i], Rows[i].xi, Rows[i].mag)
      wOK == Len(e.w) = nr /\ \A i \in 1..nr : FClose(e.w[i], W[i], "1e-8", "1e-10")
  IN IF drawn /\ ~(Len(e.draws) = nr /\ \A i \in 1..nr : Len(e.draws[i]) = r.np) THEN {"draws"}
     ELSE IF \E i \in 1..nr : Rows[i].bad THEN {"@skip"}
     ELSE (IF vOK THEN {} ELSE {"design_" \o m})
          \cup (IF wOK THEN {} ELSE {"weights_" \o m})
          \cup (IF mustraise THEN (IF e.raised THEN {} ELSE {"sample_of_empty_patch_accepted"})
                ELSE IF e.raised THEN {"raised_" \o m}
                ELSE IF CovFrom(m, e.v, e.w, e.C) THEN {} ELSE {"cov_" \o m})
          \cup (IF nr > 1 /\ ~\A k \in 1..Len(Rows[1].xi) : FClose(Rows[1].xi[k], Rows[2].xi[k], "1e-6", "1e-9")
                THEN {"@nontrivial"} ELSE {})

PartsAddUp(x) ==   \* the totals of the partial results are those of the whole
  Len(x.parts) = 0 \/ FClose(FSum([q \in 1..Len(x.parts) |-> x.parts[q].tot]), x.full.tot, "1e-8", 0)

EstFailing(r) ==
  LET dd == r.sets["dd"] rr == r.sets["rr"] dr == Opt(r, "dr") rd == Opt(r, "rd")
      X == Xi(r.three, dd.full, rr.full, FullOf(dr), FullOf(rd), dd.full.tot)
      absden == IF r.three THEN [k \in 1..Len(X.den) |-> FAbs(X.den[k])] ELSE X.den
      num == VarNum(r.three, dd.full, rr.full, FullOf(dr), FullOf(rd))
      shot == [k \in 1..Len(X.den) |-> IF FEq(X.den[k], 0) THEN 0 ELSE FDiv(num, absden[k])]
  IN (IF CloseM(r.xi, X.xi, X.mag) THEN {} ELSE {"xi"})
     \cup (IF r.ret THEN {} ELSE {"returned_differs_from_attributes"})
     \cup (IF Close(r.weight, absden) THEN {} ELSE {"weight"})
     \cup (IF Close(r.shot, shot) THEN {} ELSE {"shot"})
     \cup (IF r.unchanged THEN {} ELSE {"counts_changed"})
     \cup UNION {IF FClose(r.sets[nm].full.tot, r.totals[nm], "1e-9", 0) /\ PartsAddUp(r.sets[nm]) THEN {}
                 ELSE {"tot_" \o nm} : nm \in DOMAIN r.sets}
     \cup UNION {EstOne(r, r.est[q]) : q \in 1..Len(r.est)}
     \* what calculate itself reports is the chosen method applied to the same
     \cup (IF r.refused THEN (IF \E q \in 1..Len(r.est) : r.est[q].method = "sample" /\ ~r.est[q].raised
                              THEN {"refused"} ELSE {})
           ELSE IF r.method = "shot" THEN (IF Close(r.var, shot) THEN {} ELSE {"variance"})
           ELSE IF \E q \in 1..Len(r.est) : r.est[q].method = r.method /\ ~r.est[q].raised /\
                      ~\A k \in 1..Len(r.var) : FClose(r.var[k], r.est[q].C[k][k], "1e-7", "1e-13")
                THEN {"variance"} ELSE {})
EstJudge(r) == IF r.err # "" THEN {"raised"} ELSE EstFailing(r)
=============================================================================
