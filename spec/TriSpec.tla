------------------------------ MODULE TriSpec ------------------------------
(* What a three-point correlation is.  A triangle is an assignment of three   *)
(* distinct objects to the three roles p1, p2, p3 (the vertices opposite the  *)
(* sides d1, d2, d3); the binning says which assignments of one set of three  *)
(* objects are kept and in which bin.                                         *)
EXTENDS PairSpec

\* -------------------------------------------------------------- assignments
\* r.n = sizes of the catalogs in the pool of objects (catalog 1 first)
Range(lo, len) == [q \in 1..len |-> lo + q]
Trip(A, B, C) ==    \* all <<a, b, c>> with distinct entries
  LET la == Len(A) lb == Len(B) lc == Len(C)
      all == [q \in 1..(la * lb * lc) |-> << A[1 + ((q - 1) \div (lb * lc))],
                                            B[1 + (((q - 1) \div lc) % lb)], C[1 + ((q - 1) % lc)] >>]
  IN SelectSeq(all, LAMBDA t : t[1] # t[2] /\ t[1] # t[3] /\ t[2] # t[3])
Assignments(mode, n, ordered) ==
  LET A == Range(0, n[1]) B == Range(n[1], n[2]) C == Range(n[1] + n[2], n[3])
  IN CASE mode = 0 -> Trip(A, A, A)
       [] mode = 12 -> IF ordered THEN Trip(A, B, B) ELSE Trip(A, B, B) \o Trip(B, A, B) \o Trip(B, B, A)
       [] mode = 3 -> IF ordered THEN Trip(A, B, C)
                      ELSE Trip(A, B, C) \o Trip(A, C, B) \o Trip(B, A, C) \o Trip(B, C, A)
                           \o Trip(C, A, B) \o Trip(C, B, A)

\* --------------------------------------------------------------- geometry
Diff(bn, a, b) == IF bn.metric = "Periodic" THEN WrapV(VSub(b, a), bn.per) ELSE VSub(b, a)
\* Orientation of (a, b, c): > 0 when counter-clockwise (as seen on the sky, for curved coordinates)
Turn(co, bn, a, b, c) ==
  LET x == Cross(Diff(bn, a, b), Diff(bn, a, c))
  IN IF co = "flat" THEN x[3] ELSE FNeg(Dot(x, a))

\* seen edge-on: the orientation is a matter of rounding
EdgeOn(co, bn, a, b, c, d2, d3) ==
  FLt(FAbs(Turn(co, bn, a, b, c)), FMul("1e-9", FMul(FMul(d2, d3), IF co = "flat" THEN 1 ELSE FSqrt(Dot(a, a)))))
\* cosine of the opening angle at p1 (the angle between the sides d2 and d3)
CosPhi(bn, a, b, c, d1, d2, d3) ==
  IF bn.metric = "Arc"
  THEN FDiv(FSub(FCos(d1), FMul(FCos(d2), FCos(d3))), FMul(FSin(d2), FSin(d3)))
  ELSE FDiv(FSub(FAdd(FMul(d2, d2), FMul(d3, d3)), FMul(d1, d1)), FMul(2, FMul(d2, d3)))
ACos(x) == LET y == FMax("-1", FMin(1, x)) IN FAtan2(FSqrt(FMax(0, FSub(1, FMul(y, y)))), y)

LogIdx(bn, d) == Clip(FFloor(FDiv(FLog(FDiv(d, bn.min)), bn.bs)), bn.nbins)
InR(bn, d) == FLe(bn.min, d) /\ FLt(d, bn.max)
AlmostR(bn, d) == FLe(FMul(bn.min, "0.9999999"), d) /\ FLe(d, FMul(bn.max, "1.0000001"))
EdgeR(bn, d) == NearInt(FDiv(FLog(FDiv(d, bn.min)), bn.bs)) \/ Near(d, bn.min) \/ Near(d, bn.max)
NearInt6(x) == FClose(x, FRound(x), 0, "1e-6")

None(amb) == [k |-> 0, amb |-> amb]

\* Binning of the assignment with sides d1, d2, d3: 1-based bin, 0 when not kept; u, v (or phi) of the shape
BinTri(co, bn, a, b, c, d1, d2, d3) ==
  IF (FEq(d1, 0) /\ bn.type # "LogMultipole") \/ FEq(d2, 0) \/ FEq(d3, 0) THEN None(FALSE)
  ELSE IF bn.type = "LogRUV"
  THEN IF ~AlmostR(bn, d2) \/ FLt(FMul(d1, "1.0000001"), d2) \/ FLt(FMul(d2, "1.0000001"), d3) THEN None(FALSE)
       ELSE LET u == FDiv(d3, d2)
                v == FDiv(FSub(d1, d2), d3)
                t == Turn(co, bn, a, b, c)
                ku == FDiv(FSub(u, bn.minu), bn.ubs)
                kv == FDiv(FSub(v, bn.minv), bn.vbs)
                inu == FLe(bn.minu, u) /\ FLe(u, bn.maxu)
                inv == FLe(bn.minv, v) /\ FLe(v, bn.maxv)
                tie == FClose(d1, d2, "1e-7", 0) \/ FClose(d2, d3, "1e-7", 0)
                amb == \/ tie \/ EdgeR(bn, d2) \/ EdgeOn(co, bn, a, b, c, d2, d3)
                       \/ (FLe(FSub(bn.minu, "1e-6"), u) /\ FLe(u, FAdd(bn.maxu, "1e-6")) /\ NearInt6(ku))
                       \/ (FLe(FSub(bn.minv, "1e-6"), v) /\ FLe(v, FAdd(bn.maxv, "1e-6")) /\ NearInt6(kv))
                i == Clip(FFloor(kv), bn.nv)
                iv == IF FLt(0, t) THEN bn.nv + i ELSE bn.nv - 1 - i
            IN IF ~InR(bn, d2) \/ ~inu \/ ~inv THEN None(amb)
               ELSE [k |-> 1 + (LogIdx(bn, d2) * bn.nu + Clip(FFloor(ku), bn.nu)) * 2 * bn.nv + iv,
                     a |-> u, b |-> IF FLt(0, t) THEN v ELSE FNeg(v), amb |-> amb]
  ELSE IF ~AlmostR(bn, d2) \/ ~AlmostR(bn, d3) THEN None(FALSE)
  ELSE IF bn.type = "LogSAS"
  THEN LET phi == ACos(CosPhi(bn, a, b, c, d1, d2, d3))
           kp == FDiv(FSub(phi, bn.minphi), bn.phibs)
           inp == FLe(bn.minphi, phi) /\ FLe(phi, bn.maxphi)
           amb == \/ EdgeR(bn, d2) \/ EdgeR(bn, d3) \/ EdgeOn(co, bn, a, b, c, d2, d3)
                  \/ (FLe(FSub(bn.minphi, "1e-6"), phi) /\ FLe(phi, FAdd(bn.maxphi, "1e-6"))
                      /\ (NearInt6(kp) \/ FLt(phi, "1e-6") \/ FLt("3.14159165", phi)))
       IN IF ~FLt(0, Turn(co, bn, a, c, b)) \/ ~InR(bn, d2) \/ ~InR(bn, d3) \/ ~inp THEN None(amb)
          ELSE [k |-> 1 + (LogIdx(bn, d2) * bn.nbins + LogIdx(bn, d3)) * bn.nphi + Clip(FFloor(kp), bn.nphi),
                a |-> phi, b |-> 0, amb |-> amb]
  ELSE \* LogMultipole: the bin is the pair of side bins; the angle is kept as a phase
       LET amb == EdgeR(bn, d2) \/ EdgeR(bn, d3)
       IN IF ~InR(bn, d2) \/ ~InR(bn, d3) THEN None(amb)
          ELSE [k |-> 1 + LogIdx(bn, d2) * bn.nbins + LogIdx(bn, d3), a |-> 0, b |-> 0, amb |-> amb]

NBins3(bn) == CASE bn.type = "LogRUV" -> bn.nbins * bn.nu * 2 * bn.nv
                [] bn.type = "LogSAS" -> bn.nbins * bn.nbins * bn.nphi
                [] OTHER -> bn.nbins * bn.nbins

\* ------------------------------------------------------------- projections
\* Directions (unit complex, up to sign) that the three values are projected along: vertex to centroid
Centroid(co, bn, a, b, c) ==
  IF co = "flat" THEN VScale(FDiv(1, 3), VAdd(a, VAdd(VAdd(a, Diff(bn, a, b)), VAdd(a, Diff(bn, a, c)))))
  ELSE Unit(VAdd(Unit(a), VAdd(Unit(b), Unit(c))))
Flat0(bn) == [bn EXCEPT !.metric = "Euclidean"]
CentDirs(co, bn, a, b, c) ==
  IF co = "flat"
  THEN LET cen == Centroid(co, bn, a, b, c)
           b1 == VAdd(a, Diff(bn, a, b)) c1 == VAdd(a, Diff(bn, a, c))
       IN << DirAt(co, Flat0(bn), a, cen, FALSE), DirAt(co, Flat0(bn), b1, cen, FALSE), DirAt(co, Flat0(bn), c1, cen, FALSE) >>
  ELSE LET cen == Centroid(co, bn, a, b, c)
       IN << DirAt(co, bn, a, cen, FALSE), DirAt(co, bn, b, cen, FALSE), DirAt(co, bn, c, cen, FALSE) >>
\* The x projection: p2 and p3 along the sides to p1, p1 along the bisector
XDirs(co, bn, a, b, c) ==
  LET r12 == DirAt(co, bn, a, b, FALSE) r13 == DirAt(co, bn, a, c, FALSE)
  IN << CUnit(<<FAdd(r12[1], r13[1]), FAdd(r12[2], r13[2])>>),
        DirAt(co, bn, a, b, TRUE), DirAt(co, bn, a, c, TRUE) >>
\* exp(-i phi): phi is the angle at p1 from p3 counter-clockwise round to p2 (on the sky as seen from inside)
PhaseOf(co, bn, a, b, c) == CConj(CMul(DirAt(co, bn, a, b, FALSE), CConj(DirAt(co, bn, a, c, FALSE))))

\* Products of the three field values
Prod3(letter, v1, v2, v3, u) ==
  IF letter = "N" THEN << >>
  ELSE IF letter = "K" THEN << <<FMul(v1[1], FMul(v2[1], v3[1])), 0>> >>
  ELSE LET s == Spin(letter)
           g1 == Project(v1, s, u[1]) g2 == Project(v2, s, u[2]) g3 == Project(v3, s, u[3])
       IN << CMul(g1, CMul(g2, g3)), CMul(CConj(g1), CMul(g2, g3)),
             CMul(g1, CMul(CConj(g2), g3)), CMul(g1, CMul(g2, CConj(g3))) >>

\* One evaluated assignment
EvalTri(co, bn, bnd, letter, X, D, pool, t) ==   \* bnd: the binning as seen by the directions
  LET a == X[t[1]] b == X[t[2]] c == X[t[3]]
      d1 == D[t[2]][t[3]] d2 == D[t[1]][t[3]] d3 == D[t[1]][t[2]]
      q == BinTri(co, bn, a, b, c, d1, d2, d3)
      w == FMul(pool[t[1]].w, FMul(pool[t[2]].w, pool[t[3]].w))
      u == IF letter # "G" THEN << >> ELSE IF bn.type = "LogMultipole" THEN XDirs(co, bnd, a, b, c) ELSE CentDirs(co, bnd, a, b, c)
      p == Prod3(letter, pool[t[1]].v, pool[t[2]].v, pool[t[3]].v, u)
  IN IF q.k = 0 THEN q
     ELSE [k |-> q.k, amb |-> q.amb \/ (co # "flat" /\ (letter = "G" \/ bn.type = "LogMultipole")
                                        /\ (NoDirection(a, b) \/ NoDirection(a, c) \/ NoDirection(b, c))),
           w |-> w, a |-> q.a, b |-> q.b, d |-> <<d1, d2, d3>>,
           c |-> [m \in 1..Len(p) |-> CScale(w, p[m])],
           z |-> IF bn.type = "LogMultipole" THEN PhaseOf(co, bnd, a, b, c) ELSE <<1, 0>>]
=============================================================================
