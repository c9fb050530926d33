----------------------------- MODULE CatLifeOut -----------------------------
(* Histories of operations on catalogs (see CatLife for the abstract machine): *)
(* every object must show the rows it stands for - all columns, sums,          *)
(* variances, patches, centers - whatever was done to it and to the others.    *)
(* st: r: the input; objs: per object  R: input rows, lab: patch of each row   *)
(* (<< >>: not known yet), np: number of patches, nt: has weights, corr: pair  *)
(* counts seen, cen: centers given or seen, div: divided into patches          *)
EXTENDS CatInput

Centers0(r) == [q \in 1..Len(r.given) |-> r.given[q]]
LStart(r0) ==
  LET r == WithRows(r0) R == Kept(r)
  IN [r |-> r, objs |-> <<[R |-> R, np |-> IF Len(r.given) > 0 THEN r.ngiven ELSE NPatch(r), nt |-> Weighted(r), corr |-> << >>, cen |-> r.given,
                           div |-> Has(r, "patch") \/ Len(r.given) > 0 \/ r.o.npatch > 1,
                           lab |-> IF Has(r, "patch") THEN [q \in 1..Len(R) |-> r.cols.patch[R[q]]] ELSE << >>]>>]

\* centers of the patches from the rows
Dim(r) == IF Coords(r) = "flat" THEN 2 ELSE 3
XYZ(r, i) == IF Has(r, "x") THEN (IF Coords(r) = "flat" THEN <<Value(r, "x", i), Value(r, "y", i)>> ELSE <<Value(r, "x", i), Value(r, "y", i), Value(r, "z", i)>>)
             ELSE Sky(r, i)
Mean(r, R, k) == LET S == SelectSeq(R, LAMBDA i : ~FEq(W(r, i), 0)) w == [q \in 1..Len(S) |-> W(r, S[q])]
                 IN FDiv(FDot(w, [q \in 1..Len(S) |-> XYZ(r, S[q])[k]]), FSum(w))
CenterOf(r, R) ==
  LET m == [k \in 1..Dim(r) |-> Mean(r, R, k)]
      n == FSqrt(FSum([k \in 1..Dim(r) |-> FMul(m[k], m[k])]))
  IN IF Coords(r) = "spherical" THEN [k \in 1..Dim(r) |-> FDiv(m[k], n)] ELSE m
RowsOfPatch(x, p) == LET I == SelectSeq([q \in 1..Len(x.R) |-> q], LAMBDA q : x.lab[q] = p) IN [q \in 1..Len(I) |-> x.R[I[q]]]
\* sums of weights that cancel leave a mean without meaning
Firm(r, R) == Len(R) > 0 /\ LET w == [q \in 1..Len(R) |-> W(r, R[q])] IN FLt(FMul("0.01", FAbsSum(w)), FAbs(FSum(w)))

CentersOK(s, x, cen) ==
  IF Len(x.cen) > 0 THEN Len(cen) = Len(x.cen) /\ \A q \in 1..Len(cen) : FClose(cen[q], x.cen[q], "1e-12", "1e-14")
  ELSE IF ~x.div THEN ~Firm(s.r, x.R) \/ \A k \in 1..Dim(s.r) : FClose(cen[k], CenterOf(s.r, x.R)[k], "1e-9", "1e-10")
  ELSE \A p \in 0..(x.np - 1) :
         LET R == RowsOfPatch(x, p)
         IN ~Firm(s.r, R) \/ \A k \in 1..Dim(s.r) : FClose(cen[p * Dim(s.r) + k], CenterOf(s.r, R)[k], "1e-9", "1e-10")

Sees(s, x, o) ==
  Columns(s.r, x.R, o)
  \cup (IF Firm(s.r, x.R) THEN Variances(s.r, x.R, o) ELSE {})
  \cup (IF o.nontrivial = x.nt THEN {} ELSE {"nontrivial_w"})
  \cup (IF o.npatch = x.np THEN {} ELSE {"npatch"})
  \cup (IF ~x.div THEN (IF Len(o.patch) = 0 THEN {} ELSE {"patch"})
        ELSE IF Len(x.lab) = 0
             THEN (IF Len(o.patch) = Len(x.R) /\ \A q \in 1..Len(o.patch) : o.patch[q] \in 0..(x.np - 1) THEN {} ELSE {"patch"})
             ELSE (IF o.patch = x.lab THEN {} ELSE {"patch"}))
Learn(x, o) == [x EXCEPT !.lab = IF ~x.div \/ Len(x.lab) > 0 THEN x.lab ELSE o.patch, !.cen = IF Len(x.cen) = 0 /\ Len(o.cen) > 0 /\ o.keepcen THEN o.cen ELSE x.cen]

SeesPatches(s, x, outs) ==
  IF ~x.div \/ x.np = 1 THEN (IF Len(outs) = 1 /\ Columns(s.r, x.R, outs[1].out) = {} THEN {} ELSE {"patches"})
  ELSE IF Len(x.lab) = 0 THEN {"@skip"}
  ELSE LET occupied == {x.lab[q] : q \in 1..Len(x.lab)}
           full == SelectSeq(outs, LAMBDA p : p.out.ntot > 0)
       IN (IF {full[q].num : q \in 1..Len(full)} = occupied /\ Len(full) = Cardinality(occupied)
              /\ \A q \in 1..(Len(outs) - 1) : outs[q].num < outs[q + 1].num THEN {} ELSE {"patch_numbers"})
          \cup UNION {LET R == RowsOfPatch(x, full[q].num)
                      IN {"patch:" \o c : c \in Columns(s.r, R, full[q].out)
                                                \cup (IF Firm(s.r, R) /\ Len(s.r.o.hints) = 0 THEN Variances(s.r, R, full[q].out) ELSE {})
                                                \cup (IF full[q].out.npatch = x.np THEN {} ELSE {"npatch"})} : q \in 1..Len(full)}

Take(R, idx) == [q \in 1..Len(idx) |-> R[idx[q]]]
Combined(s, r) == Take(s.objs[r.i].R, r.mi) \o Take(s.objs[r.j].R, r.mj)
CorrOK(x, v) == Len(x.corr) = 0 \/ (Len(v) = Len(x.corr) /\ \A q \in 1..Len(v) : FClose(v[q], x.corr[q], "1e-9", "1e-12"))

LJudge(s, r) ==
  LET x == s.objs[r.i]
       IN IF r.err # "" THEN
             (IF \/ (r.op = "combine" /\ (Len(Combined(s, r)) = 0 \/ FClose(SumW(s.r, Combined(s, r)), 0, 0, "1e-12")))
                 \* a patch without any weight is refused
                 \/ (r.weightless /\ x.div /\ (IF Len(x.lab) = 0 THEN s.r.o.keep \/ Has(s.r, "wpos")
                                              ELSE \E p \in {x.lab[q] : q \in 1..Len(x.lab)} : FClose(SumW(s.r, RowsOfPatch(x, p)), 0, 0, "1e-12")))
              THEN {"@skip"} ELSE {"raised_" \o r.op})
          ELSE CASE r.op \in {"look", "cached"} ->
                      Sees(s, x, r.out) \cup (IF Len(r.out.cen) = 0 \/ CentersOK(s, Learn(x, r.out), r.out.cen) THEN {} ELSE {"centers"}) \cup {"@nontrivial"}
                 [] r.op = "lookp" -> SeesPatches(s, x, r.outs) \cup {"@nontrivial"}
                 [] r.op = "corr" -> IF CorrOK(x, r.vals) THEN {"@nontrivial"} ELSE {"correlation_changed"}
                 [] r.op = "reread" -> IF Len(x.lab) > 0 /\ r.lab # x.lab THEN {"patch"} ELSE {}
                 [] OTHER -> {}

LAfter(s, r) ==
  IF r.err # "" THEN s
  ELSE LET x == s.objs[r.i]
       IN CASE r.op \in {"look", "cached"} -> [s EXCEPT !.objs[r.i] = Learn(x, r.out)]
            [] r.op = "corr" -> [s EXCEPT !.objs[r.i].corr = r.vals]
            [] r.op \in {"copy", "pickle"} -> [s EXCEPT !.objs = Append(s.objs, x)]
            [] r.op = "reread" -> [s EXCEPT !.objs = Append(s.objs, [x EXCEPT !.lab = r.lab, !.cen = << >>])]
            [] r.op = "combine" -> [s EXCEPT !.objs = Append(s.objs, [R |-> Combined(s, r), np |-> 1, nt |-> TRUE, corr |-> << >>, cen |-> << >>,
                                                                      div |-> FALSE, lab |-> << >>])]
            [] r.op = "select" -> [s EXCEPT !.objs[r.i].R = Take(x.R, r.idx), !.objs[r.i].corr = << >>,
                                            !.objs[r.i].lab = IF Len(x.lab) = 0 THEN << >> ELSE Take(x.lab, r.idx)]
            [] OTHER -> s
=============================================================================
