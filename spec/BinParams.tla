------------------------------ MODULE BinParams ------------------------------
(* The binning of a correlation, from the parameters it is given.             *)
(* r: dim (2 or 3), bt (bin type), g: name -> value of the parameters given,   *)
(*    su, pu  the units of separations and of phi in radians,                  *)
(*    slop0   default angle_slop of the class,  bogus (an unknown parameter),  *)
(*    err     what the constructor raised,                                     *)
(*    out     name -> number or array of what the object shows                 *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, FP

Has(r, n) == n \in DOMAIN r.g
Get(r, n, d) == IF Has(r, n) THEN r.g[n] ELSE d
PI == "3.141592653589793"
Gt0(a) == FLt(0, a)
Exp1(a) == FExp(a)

----------------------------------------------------------------------------
(* How many bins: the range over the size, rounded up.  A range that is a      *)
(* multiple of the size up to rounding may get one more bin.                   *)
CountOK(n, range, size) ==
  LET x == FDiv(range, size)
      e == FAdd("1e-8", FMul(x, "1e-9"))
  IN FLe(FSub(x, e), n) /\ FLe(n - 1, FAdd(x, e)) /\ n >= 1

(* The separations: exactly three of the four (TwoD: two of three, min_sep     *)
(* only excludes small separations).                                           *)
SepNames(r) == IF r.bt = "TwoD" THEN {"nbins", "bin_size", "max_sep"} ELSE {"nbins", "bin_size", "min_sep", "max_sep"}
SepGiven(r) == {n \in SepNames(r) : Has(r, n)}
SepCountBad(r) == Cardinality(SepGiven(r)) # Cardinality(SepNames(r)) - 1
IsLog(r) == r.bt \notin {"Linear", "TwoD"}
Range(r, lo, hi) == IF IsLog(r) THEN FLog(FDiv(hi, lo)) ELSE IF r.bt = "TwoD" THEN FMul(2, hi) ELSE FSub(hi, lo)
SepValuesBad(r) ==
  LET minGiven == Get(r, "min_sep", 0)
  IN \/ (Has(r, "nbins") /\ ~Gt0(r.g["nbins"]))
     \/ (Has(r, "bin_size") /\ ~Gt0(r.g["bin_size"]))
     \/ (Has(r, "max_sep") /\ ~Gt0(r.g["max_sep"]) /\ r.bt # "Linear")
     \/ (Has(r, "min_sep") /\ IsLog(r) /\ ~Gt0(minGiven))
     \/ (Has(r, "max_sep") /\ (Has(r, "min_sep") \/ r.bt = "TwoD") /\ FLe(r.g["max_sep"], minGiven))
     \* (TwoD: max_sep follows from the other two)
     \/ (r.bt = "TwoD" /\ ~Has(r, "max_sep") /\ Has(r, "nbins") /\ Has(r, "bin_size")
         /\ FLe(FDiv(FMul(r.g["nbins"], r.g["bin_size"]), 2), minGiven))

MinSep(r) ==
  IF Has(r, "min_sep") THEN r.g["min_sep"]
  ELSE IF r.bt = "TwoD" THEN 0
  ELSE LET w == FMul(r.g["nbins"], r.g["bin_size"])
       IN IF IsLog(r) THEN FMul(r.g["max_sep"], FExp(FNeg(w))) ELSE FSub(r.g["max_sep"], w)
MaxSep(r) ==
  IF Has(r, "max_sep") THEN r.g["max_sep"]
  ELSE LET w == FMul(r.g["nbins"], r.g["bin_size"])
       IN IF IsLog(r) THEN FMul(r.g["min_sep"], FExp(w))
          ELSE IF r.bt = "TwoD" THEN FDiv(w, 2) ELSE FAdd(r.g["min_sep"], w)
\* the bin size as given, or from the others: the default of the sizes in u, v, phi
NominalSize(r) == IF Has(r, "bin_size") THEN r.g["bin_size"] ELSE FDiv(Range(r, MinSep(r), MaxSep(r)), r.g["nbins"])
NBinsOK(r, n) == IF Has(r, "nbins") THEN FEq(n, r.g["nbins"]) ELSE CountOK(n, Range(r, MinSep(r), MaxSep(r)), r.g["bin_size"])
Size(r, n) == FDiv(Range(r, MinSep(r), MaxSep(r)), n)

----------------------------------------------------------------------------
(* The third dimension of the triangles: u and v (0..1) or phi (0..pi).        *)
\* d: [n, size, lo, hi] parameter names, top the largest value, unit of lo, hi
\* pinned: which end moves when only the number and the size are given
D(r, w) == IF w = "u" THEN [n |-> "nubins", size |-> "ubin_size", lo |-> "min_u", hi |-> "max_u", top |-> 1, unit |-> 1, top0 |-> TRUE]
           ELSE IF w = "v" THEN [n |-> "nvbins", size |-> "vbin_size", lo |-> "min_v", hi |-> "max_v", top |-> 1, unit |-> 1, top0 |-> FALSE]
           ELSE [n |-> "nphi_bins", size |-> "phi_bin_size", lo |-> "min_phi", hi |-> "max_phi", top |-> PI, unit |-> r.pu, top0 |-> FALSE]
Lo0(r, d) == IF Has(r, d.lo) THEN FMul(r.g[d.lo], d.unit) ELSE 0
Hi0(r, d) == IF Has(r, d.hi) THEN FMul(r.g[d.hi], d.unit) ELSE d.top
Bad(r, d) ==
  \/ (Has(r, d.n) /\ ~Gt0(r.g[d.n]))
  \/ (Has(r, d.size) /\ ~Gt0(r.g[d.size]))
  \/ FLt(Lo0(r, d), 0) \/ FLt(d.top, Hi0(r, d)) \/ FLe(Hi0(r, d), Lo0(r, d))
  \/ (Has(r, d.n) /\ Has(r, d.size) /\ Has(r, d.lo) /\ Has(r, d.hi))
Both(r, d) == Has(r, d.n) /\ Has(r, d.size)
Wid(r, d) == FMul(r.g[d.n], r.g[d.size])
Lo(r, d) == IF Both(r, d) /\ ~Has(r, d.lo) /\ (Has(r, d.hi) \/ d.top0) THEN FMax(FSub(Hi0(r, d), Wid(r, d)), 0) ELSE Lo0(r, d)
Hi(r, d) == IF Both(r, d) /\ ~Has(r, d.hi) THEN FMin(FAdd(Lo(r, d), Wid(r, d)), d.top) ELSE Hi0(r, d)
NOK(r, d, n) == IF Has(r, d.n) THEN FEq(n, r.g[d.n])
                ELSE CountOK(n, FSub(Hi(r, d), Lo(r, d)), Get(r, d.size, NominalSize(r)))
DSize(r, d, n) == FDiv(FSub(Hi(r, d), Lo(r, d)), n)

UV == {"nubins", "ubin_size", "min_u", "max_u", "nvbins", "vbin_size", "min_v", "max_v"}
PHI == {"nphi_bins", "phi_bin_size", "min_phi", "max_phi"}
Foreign(r) == IF r.bt = "LogRUV" THEN PHI \cup {"max_n"} ELSE IF r.bt = "LogSAS" THEN UV ELSE IF r.bt = "LogMultipole" THEN UV \cup PHI ELSE {}
Dims(r) == IF r.bt = "LogRUV" THEN {"u", "v"} ELSE IF r.bt = "LogSAS" THEN {"phi"} ELSE {}

Refused(r) ==
  \/ r.bogus
  \/ SepCountBad(r)
  \/ SepValuesBad(r)
  \/ \E n \in Foreign(r) : Has(r, n)
  \/ \E w \in Dims(r) : Bad(r, D(r, w))
  \/ (r.bt = "LogMultipole" /\ (~Has(r, "max_n") \/ FLt(Get(r, "max_n", 0), 0)))
  \/ (Has(r, "min_rpar") /\ Has(r, "max_rpar") /\ FLt(r.g["max_rpar"], r.g["min_rpar"]))

----------------------------------------------------------------------------
Tol == "1e-12"
Eq(a, b) == FClose(a, b, Tol, "1e-13")
All(s, F(_)) == \A k \in 1..Len(s) : Eq(s[k], F(k))
\* centre / edge number h (in half bins from the lower end) of the separations
LogAt(r, n, h) == FAdd(FLog(MinSep(r)), FMul(FDiv(h, 2), Size(r, n)))
LinAt(r, n, h) == FAdd(IF r.bt = "TwoD" THEN FNeg(MaxSep(r)) ELSE MinSep(r), FMul(FDiv(h, 2), Size(r, n)))
At(r, n, h) == IF IsLog(r) THEN FExp(LogAt(r, n, h)) ELSE LinAt(r, n, h)

SlopDefault(r, n) ==
  LET s == Size(r, n)
  IN IF IsLog(r) THEN FMin(1, FDiv("0.1", s))
     ELSE IF r.bt = "TwoD" THEN "0.1"
     ELSE FMin(1, FDiv(FMul("0.1", FAdd(MinSep(r), FDiv(s, 2))), s))
Slop(r, n) == IF Has(r, "bin_slop") /\ FLe(0, r.g["bin_slop"]) THEN r.g["bin_slop"] ELSE SlopDefault(r, n)
SlopGiven(r) == Has(r, "bin_slop") /\ FLe(0, r.g["bin_slop"])
\* of u, v or phi bins of size s: at most a tenth unless asked otherwise
SlopOf(r, s) == IF SlopGiven(r) THEN FMul(s, r.g["bin_slop"]) ELSE FMin(s, "0.1")
AngleSlop(r) == Get(r, "angle_slop", IF r.bt = "LogMultipole" THEN FDiv(PI, FAdd(FMul(2, r.g["max_n"]), 1)) ELSE r.slop0)

Chk(name, ok) == IF ok THEN {} ELSE {name}
Common(r) ==
  LET o == r.out
      n == o.nbins
      s == Size(r, n)
      u == IF IsLog(r) THEN 1 ELSE r.su
  IN Chk("min_sep", Eq(o.min_sep, MinSep(r))) \cup Chk("max_sep", Eq(o.max_sep, MaxSep(r)))
     \cup Chk("bin_size", Eq(o.bin_size, s)) \cup Chk("bin_slop", Eq(o.bin_slop, Slop(r, n)))
     \cup Chk("b", Eq(o.b, IF r.dim = 3 /\ ~SlopGiven(r) THEN FMin(s, "0.1") ELSE FMul(u, FMul(s, Slop(r, n)))))
     \cup Chk("angle_slop", Eq(o.angle_slop, AngleSlop(r)))
     \cup Chk("internal", Eq(o.minsep_, FMul(r.su, MinSep(r))) /\ Eq(o.maxsep_, FMul(r.su, MaxSep(r))) /\ Eq(o.binsize_, FMul(u, s)))

Arrays2(r) ==
  LET o == r.out
      n == o.nbins
      C(k) == At(r, n, 2*k - 1)
  IN IF r.bt # "TwoD"
     THEN Chk("shape", \A q \in {"rnom", "logr", "left_edges", "right_edges", "zero"} : Len(o[q]) = n)
          \cup Chk("rnom", All(o.rnom, C))
          \cup Chk("logr", \A k \in 1..Len(o.logr) : FLe(C(k), 0) \/ Eq(o.logr[k], FLog(C(k))))
          \cup Chk("left_edges", All(o.left_edges, LAMBDA k : At(r, n, 2*k - 2)))
          \cup Chk("right_edges", All(o.right_edges, LAMBDA k : At(r, n, 2*k)))
     ELSE LET ix(k) == ((k - 1) % n) + 1
              iy(k) == ((k - 1) \div n) + 1
              rn(k) == FSqrt(FAdd(FMul(C(ix(k)), C(ix(k))), FMul(C(iy(k)), C(iy(k)))))
          IN Chk("shape", \A q \in {"rnom", "logr", "left_edges", "right_edges", "bottom_edges", "top_edges", "dxnom", "dynom", "zero"} : Len(o[q]) = n*n)
             \cup Chk("dxnom", All(o.dxnom, LAMBDA k : C(ix(k)))) \cup Chk("dynom", All(o.dynom, LAMBDA k : C(iy(k))))
             \cup Chk("left_edges", All(o.left_edges, LAMBDA k : At(r, n, 2*ix(k) - 2)))
             \cup Chk("right_edges", All(o.right_edges, LAMBDA k : At(r, n, 2*ix(k))))
             \cup Chk("bottom_edges", All(o.bottom_edges, LAMBDA k : At(r, n, 2*iy(k) - 2)))
             \cup Chk("top_edges", All(o.top_edges, LAMBDA k : At(r, n, 2*iy(k))))
             \cup Chk("rnom", All(o.rnom, rn))
             \cup Chk("logr", \A k \in 1..Len(o.logr) : IF FLe(rn(k), FMul(MaxSep(r), "1e-9")) THEN TRUE ELSE Eq(o.logr[k], FLog(rn(k))))

DimAt(r, d, n, h) == FAdd(Lo(r, d), FMul(FDiv(h, 2), DSize(r, d, n)))
DimOK(r, w, n, size, lo, hi, ctr) ==
  LET d == D(r, w)
  IN Chk("n" \o w, NOK(r, d, n))
     \cup (IF n < 1 THEN {"n" \o w} ELSE
           Chk(w \o "_lo", Eq(lo, Lo(r, d))) \cup Chk(w \o "_hi", Eq(hi, Hi(r, d)))
           \cup Chk(w \o "_size", Eq(size, DSize(r, d, n)))
           \cup Chk(w \o "_ctr", IF w = "v"
                                  THEN Len(ctr) = 2*n /\ \A k \in 1..n : Eq(ctr[n + k], DimAt(r, d, n, 2*k - 1)) /\ Eq(ctr[n + 1 - k], FNeg(DimAt(r, d, n, 2*k - 1)))
                                  ELSE Len(ctr) = n /\ \A k \in 1..n : Eq(ctr[k], DimAt(r, d, n, 2*k - 1))))
\* the full arrays repeat the one-dimensional ones along the right axis
Tiled(o, name, shape, A(_, _, _)) ==
  LET s == o[name]
      n2 == shape[2]  n3 == shape[3]
  IN Len(s) = shape[1]*n2*n3
     /\ \A k \in 1..Len(s) : Eq(s[k], A(((k - 1) \div (n2*n3)) + 1, (((k - 1) \div n3) % n2) + 1, ((k - 1) % n3) + 1))
Arrays3(r) ==
  LET o == r.out
      n == o.nbins
      LC(k) == LogAt(r, n, 2*k - 1)
      sh == IF r.bt = "LogRUV" THEN <<n, o.nu, 2*o.nv>> ELSE IF r.bt = "LogSAS" THEN <<n, n, o.nphi>> ELSE <<n, n, 2*o.max_n + 1>>
  IN Chk("logr1d", Len(o.logr1d) = n /\ All(o.logr1d, LC)) \cup Chk("rnom1d", Len(o.rnom1d) = n /\ All(o.rnom1d, LAMBDA k : FExp(LC(k))))
     \cup Chk("shape", o.shape = sh)
     \cup (IF r.bt = "LogRUV"
           THEN DimOK(r, "u", o.nu, o.usize, o.minu, o.maxu, o.u1d) \cup DimOK(r, "v", o.nv, o.vsize, o.minv, o.maxv, o.v1d)
                \cup Chk("bu", Eq(o.bu, SlopOf(r, DSize(r, D(r, "u"), o.nu)))) \cup Chk("bv", Eq(o.bv, SlopOf(r, DSize(r, D(r, "v"), o.nv))))
                \cup Chk("logr", Tiled(o, "logr", sh, LAMBDA i, j, k : LC(i))) \cup Chk("rnom", Tiled(o, "rnom", sh, LAMBDA i, j, k : FExp(LC(i))))
                \cup Chk("u", Tiled(o, "u", sh, LAMBDA i, j, k : o.u1d[j])) \cup Chk("v", Tiled(o, "v", sh, LAMBDA i, j, k : o.v1d[k]))
           ELSE Chk("logd2", Tiled(o, "logd2", sh, LAMBDA i, j, k : LC(i))) \cup Chk("logd3", Tiled(o, "logd3", sh, LAMBDA i, j, k : LC(j)))
                \cup Chk("d2nom", Tiled(o, "d2nom", sh, LAMBDA i, j, k : FExp(LC(i)))) \cup Chk("d3nom", Tiled(o, "d3nom", sh, LAMBDA i, j, k : FExp(LC(j))))
                \cup (IF r.bt = "LogSAS"
                      THEN DimOK(r, "phi", o.nphi, o.phisize, o.minphi, o.maxphi, o.phi1d)
                           \cup Chk("bu", Eq(o.bu, SlopOf(r, DSize(r, D(r, "phi"), o.nphi))))
                           \cup Chk("phi", Tiled(o, "phi", sh, LAMBDA i, j, k : o.phi1d[k]))
                      ELSE Chk("max_n", FEq(o.max_n, r.g["max_n"]))
                           \cup Chk("n1d", Len(o.n1d) = 2*o.max_n + 1 /\ All(o.n1d, LAMBDA k : k - 1 - o.max_n))
                           \cup Chk("n", Tiled(o, "n", sh, LAMBDA i, j, k : k - 1 - o.max_n))))

BJudge(r) ==
  IF Refused(r) THEN (IF r.err = "" THEN {"accepted"} ELSE {"@empty"})
  ELSE IF r.err # "" THEN {"raised"}
  ELSE IF ~(r.out.nbins >= 1 /\ NBinsOK(r, r.out.nbins)) THEN {"nbins"}
  ELSE Common(r) \cup (IF r.dim = 2 THEN Arrays2(r) ELSE Arrays3(r)) \cup {"@nontrivial"}
=============================================================================
