------------------------------- MODULE MulOut -------------------------------
(* Multipole (Fourier) form of the three-point correlation and its conversion *)
(* to angle bins.  Records of kind "triangles" hold a whole run: the published*)
(* coefficients must be the sums over triangles of TriSpec times              *)
(* exp(-i n phi).  Records of kind "sas" hold coefficients and the LogSAS     *)
(* arrays derived from them.                                                  *)
EXTENDS TriOut

\* ---------------------------------------------------------------- to angles
\* r: letter, nbins, maxn, nphi, minphi, phibs, phiunit; mul (coefficients), sas (arrays), unnorm (partial result), whole (ntri ratio source)
SC(x, y) == FClose(x[1], y[1], "1e-8", y[3]) /\ FClose(x[2], y[2], "1e-8", y[3])
PhiC(r, p) == FAdd(r.minphi, FMul(r.phibs, FAdd(p - 1, "0.5")))
MulAt(r, row, n) == (row - 1) * (2 * r.maxn + 1) + r.maxn + n + 1
N0(r, row) == MulAt(r, row, 0)
SasAt(r, row, p) == (row - 1) * r.nphi + p
\* value, with the scale of its terms as third component:  (1/2pi) dphi sum_n X_n exp(i n phi)
Synth(r, re, im, row, phi) ==
  LET K == 2 * r.maxn + 1
      n(q) == q - 1 - r.maxn
      T == TLCEval([q \in 1..K |-> LET c == FCos(FMul(n(q), phi)) s == FSin(FMul(n(q), phi))
                                       a == re[MulAt(r, row, n(q))] b == im[MulAt(r, row, n(q))]
                                   IN <<FSub(FMul(a, c), FMul(b, s)), FAdd(FMul(a, s), FMul(b, c))>>])
      f == FDiv(r.phibs, FMul(2, "3.14159265358979323846"))
  IN << FMul(f, FSum([q \in 1..K |-> T[q][1]])), FMul(f, FSum([q \in 1..K |-> T[q][2]])),
        FAdd(FMul("1e-12", FAdd("1e-6", FAdd(FAbsSum(re), FAbsSum(im)))),
             FMul("1e-6", FMul(f, FAdd(FAbsSum([q \in 1..K |-> T[q][1]]), FAbsSum([q \in 1..K |-> T[q][2]]))))) >>
Small(x, s) == FLe(FAbs(x), FMul(1000, s))

\* From the x projection (bisector, t, s) to the direction of the centroid, for p1 at 0 and p3 on the x axis
CAdd(a, b) == <<FAdd(a[1], b[1]), FAdd(a[2], b[2])>>
CSub(a, b) == <<FSub(a[1], b[1]), FSub(a[2], b[2])>>
Phases(d2, d3, phi) ==
  LET s == <<d2, 0>> t == <<FMul(d3, FCos(phi)), FMul(d3, FSin(phi))>>
      u == CAdd(<<1, 0>>, CUnit(t))
      q1 == CScale(FDiv(1, 3), CAdd(s, t)) q2 == CSub(q1, t) q3 == CSub(q1, s)
      ph(x, y) == CPow(CUnit(CMul(x, CConj(y))), 2)
      p1 == ph(u, q1) p2 == ph(t, q2) p3 == ph(s, q3)
  IN << CMul(p1, CMul(p2, p3)), CMul(CConj(p1), CMul(p2, p3)), CMul(p1, CMul(CConj(p2), p3)), CMul(p1, CMul(p2, CConj(p3))) >>

BadSas(r, row) ==
  LET m == r.mul o == r.sas
      W == TLCEval([p \in 1..r.nphi |-> Synth(r, m.weight, m.weight_im, row, PhiC(r, p))])
      WW == TLCEval([p \in 1..r.nphi |-> Synth(r, r.whole.weight, r.whole.weight_im, row, PhiC(r, p))])
      den == FSum([p \in 1..r.nphi |-> WW[p][1]])
      dsc == FSum([p \in 1..r.nphi |-> WW[p][3]])
      frac == FDiv(FMul(r.nphi, r.phibs), FMul(2, "3.14159265358979323846"))
      ratio == FMul(FDiv(r.whole.ntri[N0(r, row)], den), frac)
      D(q) == r.whole[q][N0(r, row)]
      at(p) == SasAt(r, row, p)
      nm(p, x) == IF r.unnorm THEN FMul(x, W[p][1]) ELSE x      \* partial results hold sums
      E8(x, y, s) == FClose(x, y, "1e-8", s)
      d1(p) == FSqrt(FSub(FAdd(FMul(D("meand2"), D("meand2")), FMul(D("meand3"), D("meand3"))),
                          FMul(2, FMul(FMul(D("meand2"), D("meand3")), FCos(PhiC(r, p))))))
      side(p, f, x) == IF E8(o[f][at(p)], nm(p, x), FMul("1e-12", FAdd(1, FAbs(x)))) THEN {} ELSE {f}
      Sd(p) == UNION {side(p, f, D(f)) : f \in {"meand2", "meand3", "meanlogd2", "meanlogd3"}}
               \cup side(p, "meand1", d1(p)) \cup side(p, "meanlogd1", FLog(d1(p)))
               \cup side(p, "meanphi", FDiv(PhiC(r, p), r.phiunit))
      fld(p, q) == LET nmq == FieldNames(r)[q]
                       x == Synth(r, m[nmq], m[Im(nmq)], row, PhiC(r, p))
                       y == IF r.unnorm \/ Small(W[p][1], W[p][3]) THEN x
                            ELSE <<FDiv(x[1], W[p][1]), FDiv(x[2], W[p][1]),
                                   FAdd(FDiv(x[3], FAbs(W[p][1])), FMul(FDiv(FMul(FMul(1000, x[3]), W[p][3]), W[p][1]), FDiv(1, FAbs(W[p][1]))))>>
                       ph == IF r.letter = "G" THEN Phases(D("meand2"), D("meand3"), PhiC(r, p))[q] ELSE <<1, 0>>
                       z == CMul(<<y[1], y[2]>>, ph)
                       s == FAdd(FAbs(y[3]), "1e-14")
                   IN IF Small(W[p][1], W[p][3]) /\ ~r.unnorm THEN {}
                      ELSE IF FClose(o[nmq][at(p)], z[1], "1e-7", s)
                              /\ (r.letter = "K" \/ FClose(o[Im(nmq)][at(p)], z[2], "1e-7", s)) THEN {} ELSE {nmq}
  IN UNION {(IF E8(o.weight[at(p)], W[p][1], W[p][3]) THEN {} ELSE {"weight"})
            \cup (IF Small(den, dsc) THEN {}
                  ELSE IF FClose(o.ntri[at(p)], FMul(ratio, W[p][1]), "1e-7", FMul(FAbs(ratio), FMul(10, W[p][3]))) THEN {} ELSE {"ntri"})
            \cup (IF D("meand2") = D("meand3") /\ FClose(PhiC(r, p), 0, 0, "1e-9") THEN {} ELSE Sd(p))
            \cup (IF r.letter = "N" THEN {} ELSE UNION {fld(p, q) : q \in 1..Len(FieldNames(r))}) : p \in 1..r.nphi}

MulJudge(r) ==
  IF r.err # "" THEN {"raised"}
  ELSE IF r.kind = "triangles" THEN TriJudge(r)
  ELSE UNION {BadSas(r, row) : row \in 1..(r.nbins * r.nbins)} \cup {"@nontrivial"}
=============================================================================
