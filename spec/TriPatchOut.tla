---------------------------- MODULE TriPatchOut ----------------------------
(* Three-point correlations over catalogs divided into patches: the result is *)
(* the one of the undivided catalogs (TriOut), and every stored partial result *)
(* holds exactly the triangles of its three patches.                           *)
(* Objects of r.pool carry `patch`; r.results are the stored partial results.  *)
EXTENDS TriOut

Low(a, b) == IF a < b THEN a ELSE b
High(a, b) == IF a < b THEN b ELSE a
Mid(a, b, c) == (a + b + c) - Low(a, Low(b, c)) - High(a, High(b, c))
\* the key of the partial result a triangle belongs to
\*   global: the patches of its objects, sorted within each catalog
\*   local:  the patch of the object at vertex 1
Key3(r, t) ==
  LET ip(q) == r.pool[t[q]].patch
      lo == Low(t[1], Low(t[2], t[3])) hi == High(t[1], High(t[2], t[3])) mi == Mid(t[1], t[2], t[3])
      p(q) == r.pool[q].patch
  IN IF r.local THEN <<ip(1), ip(1), ip(1)>>
     ELSE CASE r.mode = 0 -> <<Low(ip(1), Low(ip(2), ip(3))), Mid(ip(1), ip(2), ip(3)), High(ip(1), High(ip(2), ip(3)))>>
            [] r.mode = 12 -> <<p(lo), Low(p(mi), p(hi)), High(p(mi), p(hi))>>
            [] OTHER -> <<p(lo), p(mi), p(hi)>>
KEntries(r, raw) ==
  LET bn == r.bn
      X == TLCEval([i \in 1..Len(r.pool) |-> TLCEval(Cart(r.coords, r.pool[i].p))])
      D == TLCEval([i \in 1..Len(X) |-> TLCEval([j \in 1..Len(X) |-> TLCEval(Sep(bn.metric, bn.per, X[i], X[j]))])])
      sky == IF r.coords = "flat" THEN "flat" ELSE "sky"
      bn2 == IF raw THEN Flat0(bn) ELSE bn
      idx == TLCEval(Assignments(r.mode, r.n, r.ordered))
  IN TLCEval(SelectSeq([q \in 1..Len(idx) |->
                 TLCEval(LET e == EvalTri(sky, bn, bn2, r.letter, X, D, r.pool, idx[q]) IN IF e.k = 0 THEN e ELSE e @@ [key |-> Key3(r, idx[q])])],
               LAMBDA e : e.k # 0 \/ e.amb))

\* possible (weighted) triangles of a partial result
PW(r, c, p) ==    \* weight of catalog c in patch p (p = -1: all)
  LET lo == IF c = 1 THEN 0 ELSE IF c = 2 THEN r.n[1] ELSE r.n[1] + r.n[2]
  IN FSum([i \in 1..r.n[c] |-> IF p = -1 \/ r.pool[lo + i].patch = p THEN r.pool[lo + i].w ELSE 0])
Half(x) == FMul("0.5", x)
Cb(x) == FMul(x, FMul(x, x))
Sq2(x) == FMul(x, x)
Third(x) == FDiv(x, 3)
TotOf3(r, i, j, k) ==
  IF r.local THEN
    CASE r.mode = 0 -> FDiv(FMul(PW(r, 1, i), Sq2(PW(r, 1, -1))), 6)
      [] r.mode = 12 /\ r.ordered -> Half(FMul(PW(r, 1, i), Sq2(PW(r, 2, -1))))
      [] r.mode = 12 -> Third(FAdd(Half(FMul(PW(r, 1, i), Sq2(PW(r, 2, -1)))), FMul(PW(r, 2, i), FMul(PW(r, 1, -1), PW(r, 2, -1)))))
      [] r.ordered -> FMul(PW(r, 1, i), FMul(PW(r, 2, -1), PW(r, 3, -1)))
      [] OTHER -> Third(FSum(<<FMul(PW(r, 1, i), FMul(PW(r, 2, -1), PW(r, 3, -1))),
                              FMul(PW(r, 2, i), FMul(PW(r, 1, -1), PW(r, 3, -1))),
                              FMul(PW(r, 3, i), FMul(PW(r, 1, -1), PW(r, 2, -1)))>>))
  ELSE
    CASE r.mode = 0 -> IF i = k THEN FDiv(Cb(PW(r, 1, i)), 6)
                       ELSE IF i = j THEN Half(FMul(Sq2(PW(r, 1, i)), PW(r, 1, k)))
                       ELSE IF j = k THEN Half(FMul(PW(r, 1, i), Sq2(PW(r, 1, j))))
                       ELSE FMul(PW(r, 1, i), FMul(PW(r, 1, j), PW(r, 1, k)))
      [] r.mode = 12 -> IF j = k THEN Half(FMul(PW(r, 1, i), Sq2(PW(r, 2, j)))) ELSE FMul(PW(r, 1, i), FMul(PW(r, 2, j), PW(r, 2, k)))
      [] OTHER -> FMul(PW(r, 1, i), FMul(PW(r, 2, j), PW(r, 3, k)))

\* one partial result: unnormalised sums of its own triangles
SumNames == <<"meand1", "meanlogd1", "meand2", "meanlogd2", "meand3", "meanlogd3">>
BadPart(r, P, e) ==
  LET Mine == TLCEval(SelectSeq(P, LAMBDA q : q.key = <<e.i, e.j, e.k>>))
      o == e.out
      multi == r.bn.type = "LogMultipole"
      val(q, nm) == CASE nm = "meand1" -> q.d[1] [] nm = "meand2" -> q.d[2] [] nm = "meand3" -> q.d[3]
                      [] nm = "meanlogd1" -> FLog(q.d[1]) [] nm = "meanlogd2" -> FLog(q.d[2]) [] nm = "meanlogd3" -> FLog(q.d[3])
      Cube(x) == FMul("1e-5", Cb(x))
      aw == Cube(FAbsSum([i \in 1..Len(r.pool) |-> r.pool[i].w]))
      av == Cube(FAdd(FAbsSum([i \in 1..Len(r.pool) |-> FMul(r.pool[i].w, r.pool[i].v[1])]),
                      FAbsSum([i \in 1..Len(r.pool) |-> FMul(r.pool[i].w, r.pool[i].v[2])])))
      Plain(k) ==
        LET S == TLCEval(SelectSeq(Mine, LAMBDA q : q.k = k))
            nC == IF Len(S) = 0 THEN 0 ELSE Len(S[1].c)
            sc(m) == FAdd(FAbsSum(Terms(S, m, 1)), FAbsSum(Terms(S, m, 2)))
        IN (IF FEq(o.ntri[k], Len(S)) THEN {} ELSE {"part_ntri"})
           \cup (IF Eq3(o.weight[k], Sum3(S, LAMBDA q : q.w), Abs3(S, LAMBDA q : q.w)) THEN {} ELSE {"part_weight"})
           \cup UNION {LET nm == FieldNames(r)[m]
                       IN IF Eq3(o[nm][k], FSum(Terms(S, m, 1)), sc(m)) /\ (r.letter = "K" \/ Eq3(o[Im(nm)][k], FSum(Terms(S, m, 2)), sc(m)))
                          THEN {} ELSE {"part_zeta"} : m \in 1..nC}
           \cup UNION {IF Len(o[nm]) = 0 \/ Eq3(o[nm][k], Sum3(S, LAMBDA q : FMul(q.w, val(q, nm))), FMul("1e2", FAdd(1, Abs3(S, LAMBDA q : FMul(q.w, val(q, nm))))))
                       THEN {} ELSE {"part_means"} : nm \in {SumNames[x] : x \in 1..6}}
      mx == r.bn.maxn
      at(k, n) == (k - 1) * (2 * mx + 1) + mx + n + 1
      Multi(k, n) ==
        LET S == TLCEval(SelectSeq(Mine, LAMBDA q : q.k = k))
            nC == IF Len(S) = 0 THEN 0 ELSE Len(S[1].c)
            z == TLCEval([q \in 1..Len(S) |-> ZPow(S[q].z, n)])
            T(i) == FSum([q \in 1..Len(S) |-> FMul(S[q].w, z[q][i])])
            C(m, i) == FSum([q \in 1..Len(S) |-> CMul(S[q].c[m], z[q])[i]])
            x == at(k, n)
        IN (IF n # 0 \/ FEq(o.ntri[x], Len(S)) THEN {} ELSE {"part_ntri"})
           \cup (IF Eq3(o.weight[x], T(1), FMul("1e3", aw)) /\ Eq3(o.weight_im[x], T(2), FMul("1e3", aw)) THEN {} ELSE {"part_weight"})
           \cup UNION {LET nm == FieldNames(r)[m]
                       IN IF Eq3(o[nm][x], C(m, 1), FMul("1e3", av)) /\ Eq3(o[Im(nm)][x], C(m, 2), FMul("1e3", av)) THEN {} ELSE {"part_zeta"} : m \in 1..nC}
  IN (IF multi THEN UNION {Multi(k, n) : k \in 1..NBins3(r.bn), n \in (0 - mx)..mx} ELSE UNION {Plain(k) : k \in 1..NBins3(r.bn)})
     \cup (IF Len(e.tot) = 0 \/ Eq3(e.tot[1], TotOf3(r, e.i, e.j, e.k), 1) THEN {} ELSE {"part_tot"})

TriPatch0(r, raw) ==
  LET P == KEntries(r, raw)
      keys == {<<e.i, e.j, e.k>> : e \in {r.results[x] : x \in 1..Len(r.results)}}
      need == {P[q].key : q \in {x \in 1..Len(P) : P[x].k # 0}}
  IN IF \E q \in 1..Len(P) : P[q].amb THEN {"@ambiguous"}
     ELSE UNION {(IF r.bn.type = "LogMultipole" THEN BadRow(r, P, k) ELSE BadBin3(r, P, k)) : k \in 1..NBins3(r.bn)}
          \cup (IF Len(r.tot) = 0 \/ Eq3(r.tot[1], Tot3(r), 1) THEN {} ELSE {"tot"})
          \cup (IF r.nopatch THEN {}
                ELSE UNION {BadPart(r, P, r.results[x]) : x \in 1..Len(r.results)}
                     \cup (IF need \subseteq keys THEN {} ELSE {"part_missing"})
                     \cup (IF Cardinality(keys) = Len(r.results) THEN {} ELSE {"part_repeated"})
                     \cup (IF Len(r.tot) = 0 \/ Eq3(FSum([x \in 1..Len(r.results) |-> r.results[x].tot[1]]), Tot3(r), 1) THEN {} ELSE {"part_tot_sum"}))
          \cup (IF need = {} THEN {"@empty"} ELSE IF Cardinality(need) > 1 THEN {"@nontrivial"} ELSE {})
TriPatchJudge(r) ==
  IF r.err # "" THEN {"raised"}
  ELSE LET f == TriPatch0(r, FALSE)
       IN IF r.bn.metric = "Periodic" /\ (f \ {"@nontrivial"}) # {} /\ (f \ {"@nontrivial"}) \subseteq (TriFields \cup {"part_zeta"})
             /\ TriPatch0(r, TRUE) \subseteq {"@nontrivial"}
          THEN {"periodic_raw"} ELSE f
=============================================================================
