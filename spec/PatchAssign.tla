---------------------------- MODULE PatchAssign ----------------------------
(* Patches: every row kept by a catalog belongs to exactly one patch - the     *)
(* number it was given, or (one of) the nearest center(s) - and everything     *)
(* that gives the patches in another way agrees with it: reading a single      *)
(* patch, the list of patches, centers or patches written and read back, and   *)
(* another catalog divided by this one's centers.                              *)
(* r: the input (CatInput), plus                                               *)
(*   given   centers (flattened) or << >>;  kind  "col" | "centers" | "kmeans" *)
(*   full    the undivided view: columns, patch labels, centers `cen`          *)
(*   singles [num, err, out]  the catalog of one patch only                    *)
(*   parts   [num, out]       get_patches()                                    *)
(*   files   [num, out]       the patches saved to and read from files         *)
(*   again   [what, patch, cen]  labels and centers via written centers        *)
EXTENDS CatInput

Dim(r) == IF Coords(r) = "flat" THEN 2 ELSE 3
XYZ(r, i) == IF Has(r, "x") THEN (IF Coords(r) = "flat" THEN <<Value(r, "x", i), Value(r, "y", i)>> ELSE <<Value(r, "x", i), Value(r, "y", i), Value(r, "z", i)>>)
             ELSE Sky(r, i)
Center(r, cen, p) == [k \in 1..Dim(r) |-> cen[p * Dim(r) + k]]
NumCenters(r, cen) == Len(cen) \div Dim(r)
Dist2(a, b) == FSum([k \in 1..Len(a) |-> LET d == FSub(a[k], b[k]) IN FMul(d, d)])

\* label p is (up to rounding) nearest: no other center is closer by more than rounding
NearestLabel(r, cen, i, p) ==
  LET x == XYZ(r, i)
      d == Dist2(x, Center(r, cen, p))
      tol == FMul("1e-13", FAdd(1, FSum([k \in 1..Dim(r) |-> FMul(x[k], x[k])])))
  IN \A q \in 0..(NumCenters(r, cen) - 1) :
       LET e == Dist2(x, Center(r, cen, q)) IN ~FLt(FAdd(e, FAdd(tol, FMul("1e-12", e))), d)

Assigned(r, R) == \* labels of the rows R
  LET lab == r.full.patch cen == IF Len(r.given) > 0 THEN r.given ELSE r.full.cen
  IN IF Len(lab) # Len(R) THEN {"labels"}
     ELSE IF r.kind = "col" THEN (IF \A q \in 1..Len(R) : lab[q] = r.cols.patch[R[q]] THEN {} ELSE {"labels"})
     ELSE (IF \A q \in 1..Len(R) : lab[q] \in 0..(r.np - 1) THEN {} ELSE {"labels"})
          \cup (IF r.kind = "kmeans" /\ Coords(r) = "3d" /\ Has(r, "ra") THEN {}    \* (k-means of these works on the sky)
                ELSE IF \A q \in 1..Len(R) : HasNaN(r, R[q]) \/ (FEq(W(r, R[q]), 0) /\ r.kind = "kmeans") \/ NearestLabel(r, cen, R[q], lab[q])
                     THEN {} ELSE {"not_nearest"})

\* centers: those given, or the weighted means of the members
Mean(r, S, k) == LET w == [q \in 1..Len(S) |-> W(r, S[q])] IN FDiv(FDot(w, [q \in 1..Len(S) |-> XYZ(r, S[q])[k]]), FSum(w))
CenterOf(r, R) ==
  LET S == SelectSeq(R, LAMBDA i : ~FEq(W(r, i), 0))
      m == [k \in 1..Dim(r) |-> Mean(r, S, k)]
      n == FSqrt(FSum([k \in 1..Dim(r) |-> FMul(m[k], m[k])]))
  IN IF Coords(r) = "spherical" THEN [k \in 1..Dim(r) |-> FDiv(m[k], n)] ELSE m
Members(r, R, p) == LET I == SelectSeq([q \in 1..Len(R) |-> q], LAMBDA q : r.full.patch[q] = p) IN [q \in 1..Len(I) |-> R[I[q]]]
Firm(r, R) == Len(R) > 0 /\ LET w == [q \in 1..Len(R) |-> W(r, R[q])] IN FLt(FMul("0.01", FAbsSum(w)), FAbs(FSum(w)))
Numbers(r) == {r.full.patch[q] : q \in 1..Len(r.full.patch)}
CentersOK(r, R) ==
  LET cen == r.full.cen
  IN IF Len(cen) = 0 THEN {"@skip"}                   \* a number without objects: refused
     ELSE IF Len(cen) # r.np * Dim(r) THEN {"centers"}
     ELSE IF Len(r.given) > 0 THEN (IF \A q \in 1..Len(cen) : FEq(cen[q], r.given[q]) THEN {} ELSE {"centers"})
     ELSE IF r.kind = "kmeans" THEN {}
     ELSE IF \A p \in Numbers(r) : LET M == Members(r, R, p)
                                   IN ~Firm(r, M) \/ LET c == CenterOf(r, M) IN \A k \in 1..Dim(r) : FClose(cen[p * Dim(r) + k], c[k], "1e-9", "1e-10")
          THEN {} ELSE {"centers"}

\* a catalog that holds only the members of patch p
OnlyPatch(r, R, what, v) ==
  LET M == Members(r, R, v.num)
  IN IF v.err # "" THEN (IF Len(M) = 0 \/ FClose(SumW(r, M), 0, 0, "1e-12") THEN {} ELSE {what \o "_raised"})
     ELSE IF Len(M) = 0 THEN (IF v.out.ntot = 0 THEN {} ELSE {what \o "_rows"})
     ELSE {what \o ":" \o c : c \in Columns(r, M, v.out) \cup (IF v.out.npatch = r.np THEN {} ELSE {"npatch"})
                                     \cup (IF v.out.patch = [q \in 1..Len(M) |-> v.num] THEN {} ELSE {"patch"})}
\* a complete list of patches: every object in exactly one
Partition(r, R, what, vs) ==
  LET full == SelectSeq(vs, LAMBDA v : v.out.ntot > 0)
  IN (IF {full[q].num : q \in 1..Len(full)} = Numbers(r) /\ Len(full) = Cardinality(Numbers(r)) THEN {} ELSE {what \o "_numbers"})
     \cup (IF FEq(FSum([q \in 1..Len(full) |-> full[q].out.ntot]), Len(R)) THEN {} ELSE {what \o "_partition"})
     \cup UNION {OnlyPatch(r, R, what, full[q]) : q \in 1..Len(full)}

Again(r, R, a) ==
  (IF a.err # "" THEN {a.what \o "_raised"}
   ELSE (IF Len(a.cen) = Len(r.full.cen) /\ \A q \in 1..Len(a.cen) : FClose(a.cen[q], r.full.cen[q], "3e-16", 0) THEN {} ELSE {a.what \o "_centers"})
        \cup (IF Len(a.patch) = Len(R) /\ a.npatch = r.np
                 /\ \A q \in 1..Len(R) :
                      \/ HasNaN(r, R[q])
                      \/ NearestLabel(r, r.full.cen, R[q], a.patch[q])
              THEN {} ELSE {a.what \o "_labels"})
        \* and with given centers even ties go the same way
        \cup (IF r.kind # "centers" \/ a.patch = r.full.patch THEN {} ELSE {a.what \o "_differs"}))

PJudge(r0) ==
  LET r == WithRows(r0)
      R == Kept(r)
  IN IF Len(R) = 0 \/ (Weighted(r) /\ FClose(SumW(r, Selected(r)), 0, 0, "1e-12")) THEN {"@skip"}
     ELSE IF r.err # "" THEN {"raised"}
     ELSE LET a == Assigned(r, R)
          IN IF "labels" \in a \/ "ntot" \in Columns(r, R, r.full) THEN a \cup Columns(r, R, r.full)
             ELSE a \cup Columns(r, R, r.full) \cup CentersOK(r, R)
                  \cup (IF r.full.npatch = r.np THEN {} ELSE {"npatch"})
                  \cup UNION {OnlyPatch(r, R, "single", r.singles[q]) : q \in 1..Len(r.singles)}
                  \cup (IF Len(r.parts) = 0 THEN {} ELSE Partition(r, R, "part", r.parts))
                  \cup (IF Len(r.files) = 0 THEN {} ELSE Partition(r, R, "file", r.files))
                  \cup UNION {Again(r, R, r.again[q]) : q \in 1..Len(r.again)}
                  \cup {"@nontrivial"}
=============================================================================
