------------------------------- MODULE Derived -------------------------------
(* Statistics derived from a correlation: aperture mass, tophat shear, counts  *)
(* in apertures, and the skewness of the aperture mass, as sums over the bins. *)
(* r: kind ("mapsq" "gamsq" "nmap" "napsq" "norm" "map3"), bt (bin type),      *)
(*    form (kernel), R (radii), k (k2, k3), eb,                                *)
(*    c  the correlation: bs, r (mean separations), xip, xip_im, xim, xim_im,  *)
(*       varxip, varxim, (nmap/napsq/norm: ng = [xi, xi_im, var], nn = ...)    *)
(*    out  the arrays returned, file: columns written (name -> values)         *)
EXTENDS Naturals, Integers, Sequences, TLC, FP

PI == "3.141592653589793"
RECURSIVE Poly(_, _)
Poly(cs, x) == IF Len(cs) = 0 THEN 0 ELSE FAdd(cs[1], FMul(x, Poly(Tail(cs), x)))
Sq(x) == FMul(x, x)
P3(x) == FMul(x, FMul(x, x))
Root(s) == FSqrt(FSub(4, Sq(s)))                      \* sqrt(4 - s^2)
ACos(x) == FAtan2(FSqrt(FMul(FSub(1, x), FAdd(1, x))), x)
ACosH(s) == ACos(FDiv(s, 2))
ASinH(s) == FAsin(FDiv(s, 2))

(* ------------------------------ kernels ---------------------------------- *)
Gauss(s) == FExp(FNeg(FDiv(Sq(s), 4)))
TPlus(form, s) ==
  IF form = "Crittenden" THEN FMul(FDiv(Poly(<<32, -16, 1>>, Sq(s)), 128), Gauss(s))
  ELSE IF FLe(2, s) THEN 0
  ELSE FAdd(FMul(FDiv(12, FMul(5, PI)), FMul(FSub(2, FMul(15, Sq(s))), ACosH(s))),
            FMul(FDiv(FMul(s, Root(s)), FMul(100, PI)), Poly(<<120, 2320, -754, 132, -9>>, Sq(s))))
TMinus(form, s) ==
  IF form = "Crittenden" THEN FMul(FDiv(Sq(Sq(s)), 128), Gauss(s))
  ELSE IF FLe(2, s) THEN 0
  ELSE LET q == FSub(4, Sq(s)) IN FMul(FDiv(FMul(3, P3(s)), FMul(70, PI)), FMul(P3(q), FSqrt(q)))
TCross(form, s) ==
  IF form = "Crittenden" THEN FMul(FDiv(Sq(s), 128), FMul(FSub(12, Sq(s)), Gauss(s)))
  ELSE IF FLe(2, s) THEN 0
  ELSE FSub(FMul(FDiv(18, PI), FMul(Sq(s), ACosH(s))),
            FMul(FDiv(FMul(3, P3(s)), FMul(40, PI)), FMul(Root(s), Poly(<<196, -74, 14, -1>>, Sq(s)))))
SPlus(s) == IF FLe(2, s) THEN 0 ELSE FDiv(FSub(FMul(4, ACosH(s)), FMul(s, Root(s))), PI)
SMinus(s) ==
  LET s4 == Sq(Sq(s))
  IN IF FLe(2, s) THEN FDiv(FMul(4, FSub(Sq(s), 3)), s4)
     ELSE FDiv(FSub(FMul(FMul(s, Root(s)), FSub(6, Sq(s))), FMul(FMul(8, FSub(3, Sq(s))), ASinH(s))), FMul(PI, s4))

(* r dr / R^2 = s^2 dlog r: the sum over the bins of s^2 K(s) x *)
Terms(c, R, x, K(_)) == [q \in 1..Len(c.r) |-> LET s == FDiv(c.r[q], R) IN FMul(FMul(c.bs, FMul(Sq(s), K(s))), x[q])]
VarTerms(c, R, v, K(_)) == [q \in 1..Len(c.r) |-> LET s == FDiv(c.r[q], R) IN FMul(Sq(FMul(c.bs, FMul(Sq(s), K(s)))), v[q])]
(* Rounding: the kernels end (with a root) at s = 2 and those of the tophat     *)
(* cancel at small s, where the value depends on the last digits of s.          *)
Edge(s) == LET d == FAbs(FSub(s, 2)) IN IF FLt(d, "1e-6") THEN "1e-6" ELSE 0
Rel(s) == FDiv("1e-14", FMax(FAbs(FSub(s, 2)), "1e-12"))
Slack(c, R, x, K(_)) ==
  FAbsSum([q \in 1..Len(c.r) |-> LET s == FDiv(c.r[q], R)
                                 IN FMul(FMul(c.bs, x[q]), FAdd(FMul(Sq(s), FAdd(Edge(s), FMul(FAbs(K(s)), Rel(s)))), FDiv("1e-14", s)))])
SlackVar(c, R, v, K(_)) ==
  FAbsSum([q \in 1..Len(c.r) |-> LET s == FDiv(c.r[q], R)
                                     k == FMul(Sq(s), FAbs(K(s)))
                                     e == FAdd(FMul(Sq(s), FAdd(Edge(s), FMul(FAbs(K(s)), Rel(s)))), FDiv("1e-14", s))
                                 IN FMul(FMul(Sq(c.bs), v[q]), FAdd(FMul(FMul(2, k), e), Sq(e)))])
\* a number, the size of the terms it is made of, and what rounding can do
Sum1(t, sl) == <<FSum(t), FAbsSum(t), sl>>
Scale(a, t) == [q \in 1..Len(t) |-> FMul(a, t[q])]
Tol == "1e-11"
Near(v, e) == FClose(v, e[1], 0, FAdd(FAdd(FMul(Tol, e[2]), e[3]), "1e-300"))

Vec(r, v, E(_)) == Len(v) = Len(r.R) /\ \A q \in 1..Len(r.R) : Near(v[q], E(r.R[q]))
Chk(name, ok) == IF ok THEN {} ELSE {name}

MapPart(c, form, R, xp, xm, sgn) ==
  LET P(s) == TPlus(form, s)
      M(s) == TMinus(form, s)
  IN Sum1(Scale("0.5", Terms(c, R, xp, P) \o Scale(sgn, Terms(c, R, xm, M))), FAdd(Slack(c, R, xp, P), Slack(c, R, xm, M)))
MapVar(c, form, R) ==
  LET P(s) == TPlus(form, s)
      M(s) == TMinus(form, s)
  IN Sum1(Scale("0.25", VarTerms(c, R, c.varxip, P) \o VarTerms(c, R, c.varxim, M)), FAdd(SlackVar(c, R, c.varxip, P), SlackVar(c, R, c.varxim, M)))
MapOK(r, o) ==
  LET c == r.c f == r.form
  IN Chk("mapsq", Vec(r, o[1], LAMBDA R : MapPart(c, f, R, c.xip, c.xim, 1)))
     \cup Chk("mapsq_im", Vec(r, o[2], LAMBDA R : MapPart(c, f, R, c.xip_im, c.xim_im, 1)))
     \cup Chk("mxsq", Vec(r, o[3], LAMBDA R : MapPart(c, f, R, c.xip, c.xim, -1)))
     \cup Chk("mxsq_im", Vec(r, o[4], LAMBDA R : MapPart(c, f, R, c.xip_im, c.xim_im, -1)))
     \cup Chk("varmapsq", Vec(r, o[5], LAMBDA R : MapVar(c, f, R)))

GamPart(c, R, a, sgn) ==
  Sum1(Scale(a, Terms(c, R, c.xip, SPlus) \o (IF sgn = 0 THEN << >> ELSE Scale(sgn, Terms(c, R, c.xim, SMinus)))),
       FAdd(Slack(c, R, c.xip, SPlus), IF sgn = 0 THEN 0 ELSE Slack(c, R, c.xim, SMinus)))
GamOK(r, o) ==
  LET c == r.c
  IN Chk("gamsq", Vec(r, o[1], LAMBDA R : GamPart(c, R, 1, 0)))
     \cup Chk("vargamsq", Vec(r, o[2], LAMBDA R : Sum1(VarTerms(c, R, c.varxip, SPlus), SlackVar(c, R, c.varxip, SPlus))))
     \cup (IF ~r.eb THEN Chk("eb", Len(o) = 2)
           ELSE Chk("gamsq_e", Vec(r, o[3], LAMBDA R : GamPart(c, R, "0.5", 1)))
                \cup Chk("gamsq_b", Vec(r, o[4], LAMBDA R : GamPart(c, R, "0.5", -1)))
                \cup Chk("vargamsq_e", Vec(r, o[5], LAMBDA R : Sum1(Scale("0.25", VarTerms(c, R, c.varxip, SPlus) \o VarTerms(c, R, c.varxim, SMinus)),
                                                                           FAdd(SlackVar(c, R, c.varxip, SPlus), SlackVar(c, R, c.varxim, SMinus))))))

NMapOK(r, o) ==
  LET c == r.ng f == r.form
      K(s) == TCross(f, s)
  IN Chk("nmap", Vec(r, o[1], LAMBDA R : Sum1(Terms(c, R, c.xi, K), Slack(c, R, c.xi, K)))) \cup Chk("nmx", Vec(r, o[2], LAMBDA R : Sum1(Terms(c, R, c.xi_im, K), Slack(c, R, c.xi_im, K))))
     \cup Chk("varnmap", Vec(r, o[3], LAMBDA R : Sum1(VarTerms(c, R, c.var, K), SlackVar(c, R, c.var, K))))
\* counts have no second component: all of <N_ap^2> is in the T+ term
NapOK(r, o) ==
  LET c == r.nn f == r.form
      K(s) == TPlus(f, s)
  IN Chk("napsq", Vec(r, o[1], LAMBDA R : Sum1(Terms(c, R, c.xi, K), Slack(c, R, c.xi, K)))) \cup Chk("varnapsq", Vec(r, o[2], LAMBDA R : Sum1(VarTerms(c, R, c.var, K), SlackVar(c, R, c.var, K))))

(* --------------------------- three-point --------------------------------- *)
CAdd(x, y) == <<FAdd(x[1], y[1]), FAdd(x[2], y[2])>>
CSub(x, y) == <<FSub(x[1], y[1]), FSub(x[2], y[2])>>
CMul(x, y) == <<FSub(FMul(x[1], y[1]), FMul(x[2], y[2])), FAdd(FMul(x[1], y[2]), FMul(x[2], y[1]))>>
CConj(x) == <<x[1], FNeg(x[2])>>
CScale(s, x) == <<FMul(s, x[1]), FMul(s, x[2])>>
CAbs2(x) == FAdd(Sq(x[1]), Sq(x[2]))
CDiv(x, y) == CScale(FDiv(1, CAbs2(y)), CMul(x, CConj(y)))
CSq(x) == CMul(x, x)
CRe(a) == <<a, 0>>

(* Schneider, Kilbinger & Lombardi (2005), equations 62-69, with the shears     *)
(* projected towards the centroid; th = the three aperture scales squared,      *)
(* s = the vector from 1 to 3... (side d2) and t (side d3), as complex numbers. *)
\* T: << T0, T1, T2, T3 >>
Kern(s, t, k) ==
  LET q1 == CScale(FDiv(1, 3), CAdd(s, t))
      q2 == CSub(q1, t)
      q3 == CSub(q1, s)
      q == <<q1, q2, q3>>
      a == TLCEval([j \in 1..3 |-> CAbs2(q[j])])
      k2 == TLCEval([j \in 1..3 |-> Sq(k[j])])
      Th2 == FSqrt(FDiv(FAdd(FMul(k2[1], k2[2]), FAdd(FMul(k2[1], k2[3]), FMul(k2[2], k2[3]))), 3))   \* Theta^2
      n == TLCEval([j \in 1..3 |-> FDiv(k2[j], Th2)])
      Nx(j) == (j % 3) + 1
      Pv(j) == ((j + 1) % 3) + 1
      S == FMul(n[1], FMul(n[2], n[3]))
      Z == FDiv(FSum([j \in 1..3 |-> FMul(FSub(FAdd(FMul(2, n[Nx(j)]), FMul(2, n[Pv(j)])), n[j]), a[j])]), FMul(6, Th2))
      ex == FNeg(FMul(S, FDiv(FExp(FNeg(Z)), Sq(Th2))))
      dq(j) == CDiv(CSub(q[Nx(j)], q[Pv(j)]), q[j])
      f == TLCEval([j \in 1..3 |-> CAdd(CRe(FDiv(FAdd(n[Nx(j)], n[Pv(j)]), 2)), CScale(FDiv(FSub(n[Nx(j)], n[Pv(j)]), 6), dq(j)))])
      g == TLCEval([j \in 1..3 |-> CAdd(CRe(FMul(n[Nx(j)], n[Pv(j)])), CScale(FDiv(FMul(FSub(n[Pv(j)], n[Nx(j)]), n[j]), 3), dq(j)))])
      fc == TLCEval([j \in 1..3 |-> CConj(f[j])])
      a123 == FMul(a[1], FMul(a[2], a[3]))
      b == TLCEval([j \in 1..3 |-> CMul(CSq(CConj(q[j])), CMul(q[Nx(j)], q[Pv(j)]))])
      Th4 == Sq(Th2)
      Th6 == FMul(Th4, Th2)
      T0 == CScale(FDiv(FMul(ex, a123), FMul(24, Th6)), CMul(CSq(fc[1]), CMul(CSq(fc[2]), CSq(fc[3]))))
      T(j) == LET m == Nx(j)  p == Pv(j)
                  A == CScale(FDiv(a123, FMul(24, Th6)), CMul(CSq(f[j]), CMul(CSq(fc[m]), CSq(fc[p]))))
                  B == CScale(FDiv(1, FMul(9, Th4)), CMul(b[j], CMul(CMul(f[j], CConj(g[j])), CMul(fc[m], fc[p]))))
                  C == CScale(FDiv(1, FMul(27, FMul(a123, Th2))),
                              CAdd(CMul(CSq(b[j]), CSq(CConj(g[j]))),
                                   CScale(FMul(2, FMul(FMul(n[m], n[p]), FMul(a[m], a[p]))), CMul(b[j], CMul(fc[m], fc[p])))))
              IN CScale(ex, CAdd(CSub(A, B), C))
  IN << T0, T(1), T(2), T(3) >>

(* triangle of a bin: sides in units of R, as complex numbers along d2; weight  *)
(* d^2s d^2t / (2 pi R^4) of the bin.  c: d1, d2, d3, u, v, phi (means per bin) *)
Tri(r, q, R) ==
  LET c == r.c
      s == FDiv(c.d2[q], R)
      d3 == FDiv(c.d3[q], R)
      sds == FMul(Sq(s), c.bs)
  IN IF r.bt = "LogSAS"
     THEN [s |-> <<s, 0>>, t |-> <<FMul(d3, FCos(c.phi[q])), FMul(d3, FSin(c.phi[q]))>>, ok |-> TRUE,
           w |-> FMul(sds, FDiv(FMul(Sq(d3), FMul(c.bs, c.phibs)), FMul(2, PI)))]
     ELSE LET u == c.u[q]
              v == FAbs(c.v[q])
              tx == FMul(d3, FSub(FMul(FDiv(u, 2), FSub(1, Sq(v))), v))
              ok == FLt(FAbs(tx), d3)
              ty == FSqrt(FSub(Sq(d3), Sq(tx)))
          IN [s |-> <<s, 0>>, ok |-> ok, t |-> <<tx, IF FLt(0, c.v[q]) THEN FNeg(ty) ELSE ty>>,
              w |-> IF ~ok THEN 0
                    ELSE FMul(sds, FDiv(FMul(FMul(Sq(d3), FDiv(c.d1[q], R)), FMul(c.ubs, c.vbs)), FMul(ty, FMul(2, PI))))]

\* which apertures are at the three vertices: LogRUV orders the vertices by the
\* sides, so all six; LogSAS has every vertex first, so only the order of 2 and 3
Perms(r) == IF r.bt = "LogSAS" THEN << <<1, 2, 3>>, <<1, 3, 2>> >>
            ELSE << <<1, 2, 3>>, <<1, 3, 2>>, <<2, 1, 3>>, <<2, 3, 1>>, <<3, 1, 2>>, <<3, 2, 1>> >>
\* coefficients of gam0..gam3 of bin q for every permutation
Coef(r, R) ==
  [q \in 1..Len(r.c.d2) |->
     LET t == TLCEval(Tri(r, q, R))
     IN [p \in 1..Len(Perms(r)) |->
           LET T == TLCEval(Kern(t.s, t.t, [j \in 1..3 |-> r.k[Perms(r)[p][j]]]))
           IN [m \in 1..4 |-> IF t.ok THEN CScale(t.w, T[m]) ELSE <<0, 0>>]]]
\* <M M M> (x = 0), and with the conjugate at aperture x = 1, 2, 3
Corr3(r, C, x) ==
  LET n == Len(r.c.d2)
      np == Len(Perms(r))
      at(p) == IF x = 0 THEN 1 ELSE 1 + (CHOOSE j \in 1..3 : Perms(r)[p][j] = x)
      gam(m, q) == r.c.gam[m][q]
      term == TLCEval([i \in 1..(n * np) |-> LET q == ((i - 1) \div np) + 1
                                         p == ((i - 1) % np) + 1
                                     IN CMul(C[q][p][at(p)], gam(at(p), q))])
  IN [re |-> FSum([i \in 1..Len(term) |-> term[i][1]]), im |-> FSum([i \in 1..Len(term) |-> term[i][2]]),
      ab |-> FAdd(FAbsSum([i \in 1..Len(term) |-> term[i][1]]), FAbsSum([i \in 1..Len(term) |-> term[i][2]]))]
Var3(r, C) ==
  LET n == Len(r.c.d2)
      tot(q, m) == <<FSum([p \in 1..Len(C[q]) |-> C[q][p][m][1]]), FSum([p \in 1..Len(C[q]) |-> C[q][p][m][2]])>>
  IN FSum([i \in 1..(4*n) |-> LET q == ((i - 1) \div 4) + 1
                                  m == ((i - 1) % 4) + 1
                              IN FMul(FDiv(CAbs2(tot(q, m)), 16), r.c.vargam[m][q])])
Map3At(r, o, j) ==
  LET C == TLCEval(Coef(r, r.R[j]))
      M == TLCEval([x \in 0..3 |-> Corr3(r, C, x)])
      ab == FSum([x \in 1..4 |-> M[x - 1].ab])
      re(s1, s2, s3, s0) == FDiv(FSum(<<FMul(s1, M[1].re), FMul(s2, M[2].re), FMul(s3, M[3].re), FMul(s0, M[0].re)>>), 4)
      im(s1, s2, s3, s0) == FDiv(FSum(<<FMul(s1, M[1].im), FMul(s2, M[2].im), FMul(s3, M[3].im), FMul(s0, M[0].im)>>), 4)
      want == << re(1, 1, 1, 1), im(1, 1, -1, 1), im(1, -1, 1, 1), im(-1, 1, 1, 1),
                 re(1, 1, -1, -1), re(1, -1, 1, -1), re(-1, 1, 1, -1), im(1, 1, 1, -1) >>
      names == << "map3", "mapmapmx", "mapmxmap", "mxmapmap", "mxmxmap", "mxmapmx", "mapmxmx", "mx3" >>
      var == Var3(r, C)
  IN UNION {Chk(names[i], FClose(o[i][j], want[i], 0, FAdd(FMul("1e-9", ab), "1e-300"))) : i \in 1..8}
     \cup Chk("varmap3", FClose(o[9][j], var, "1e-8", FAdd(FMul("1e-18", Sq(ab)), "1e-300")))
Map3OK(r, o) == IF \E i \in 1..9 : Len(o[i]) # Len(r.R) THEN {"length"} ELSE UNION {Map3At(r, o, j) : j \in 1..Len(r.R)}

(* ------------------------------- files ----------------------------------- *)
\* what each column of the file holds, of the values returned by the calls (r.out)
Cols(r) ==
  IF r.kind = "mapsq" THEN << <<"R", 0, 1>>, <<"Mapsq", 1, 1>>, <<"Mxsq", 3, 1>>, <<"MMxa", 2, 1>>, <<"MMxb", 4, -1>>, <<"sig_map", 5, 2>>, <<"Gamsq", 6, 1>>, <<"sig_gam", 7, 2>> >>
  ELSE IF r.kind = "nmap" THEN << <<"R", 0, 1>>, <<"NMap", 1, 1>>, <<"NMx", 2, 1>>, <<"sig_nmap", 3, 2>> >>
  ELSE IF r.kind = "map3" THEN << <<"R", 0, 1>>, <<"Map3", 1, 1>>, <<"Map2Mx", 2, 1>>, <<"MapMx2", 5, 1>>, <<"Mx3", 8, 1>>, <<"sig_map", 9, 2>> >>
  ELSE << <<"R", 0, 1>>, <<"NMap", 1, 1>>, <<"NMx", 2, 1>>, <<"sig_nmap", 3, 2>>, <<"Napsq", 4, 1>>, <<"sig_napsq", 5, 2>>, <<"Mapsq", 6, 1>>, <<"sig_mapsq", 7, 2>>,
          <<"NMap_norm", 8, 1>>, <<"sig_norm", 9, 2>>, <<"Nsq_Mapsq", 10, 1>>, <<"sig_nn_mm", 11, 2>> >>
\* the normalised ratios, from nmap, varnmap, nsq, varnsq, mapsq, varmapsq
Ratio(o, j, i) ==
  LET nm == o[1][j] vnm == o[3][j] ns == o[4][j] vns == o[5][j] ms == o[6][j] vms == o[7][j]
      norm == FDiv(Sq(nm), FMul(ns, ms))
      rel(a, b) == FDiv(a, Sq(b))
  IN IF i = 8 THEN norm
     ELSE IF i = 9 THEN FMul(Sq(norm), FAdd(FMul(4, rel(vnm, nm)), FAdd(rel(vns, ns), rel(vms, ms))))
     ELSE IF i = 10 THEN FDiv(ns, ms)
     ELSE FMul(Sq(FDiv(ns, ms)), FAdd(rel(vns, ns), rel(vms, ms)))
ColVal(r, k, j) ==
  LET v == IF k[2] = 0 THEN r.R[j] ELSE IF k[2] > Len(r.out) THEN Ratio(r.out, j, k[2]) ELSE r.out[k[2]][j]
  IN IF k[3] = 2 THEN FSqrt(v) ELSE IF k[3] = -1 THEN FNeg(v) ELSE v
FTol(r) == IF r.fkind = "ASCII" /\ r.prec < 14 THEN FMul("0.6", FExp(FMul(-r.prec, FLog(10)))) ELSE "1e-12"
FileOK(r) ==
  LET cs == Cols(r)
  IN Chk("columns", r.hdr = [i \in 1..Len(cs) |-> cs[i][1]])
     \cup (IF r.hdr # [i \in 1..Len(cs) |-> cs[i][1]] THEN {}
           ELSE UNION {Chk("file:" \o cs[i][1],
                           Len(r.file[cs[i][1]]) = Len(r.R)
                           /\ \A j \in 1..Len(r.R) : LET v == ColVal(r, cs[i], j) IN FClose(r.file[cs[i][1]][j], v, FTol(r), "1e-300") \/ (FIsNaN(v) /\ FIsNaN(r.file[cs[i][1]][j]))) : i \in 1..Len(cs)})

DJudge(r) ==
  IF r.refuse THEN (IF r.err = "" THEN {"accepted"} ELSE {"@empty"})
  ELSE IF r.err # "" THEN {"raised"}
  ELSE Chk("changed", r.same)
       \cup (IF r.kind = "mapsq" THEN MapOK(r, r.out) \cup (IF Len(r.out) > 5 THEN GamOK(r, SubSeq(r.out, 6, Len(r.out))) ELSE {})
             ELSE IF r.kind = "gamsq" THEN GamOK(r, r.out)
             ELSE IF r.kind = "nmap" THEN NMapOK(r, r.out)
             ELSE IF r.kind = "napsq" THEN NapOK(r, r.out)
             ELSE IF r.kind = "norm" THEN NMapOK(r, r.out) \cup NapOK(r, SubSeq(r.out, 4, 5))
                                          \cup {x \in MapOK(r, <<r.out[6], r.out[6], r.out[6], r.out[6], r.out[7]>>) : x \in {"mapsq", "varmapsq"}}
             ELSE Map3OK(r, r.out))
       \cup (IF Len(r.hdr) > 0 THEN FileOK(r) ELSE {})
       \cup {"@nontrivial"}
=============================================================================
