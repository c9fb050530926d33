------------------------------ MODULE CatInput ------------------------------
(* What a Catalog is, given the columns and options it was built from: the    *)
(* pipeline  take rows -> select patch -> convert -> mark bad rows -> drop     *)
(* rows of no weight, and which inputs are refused.                           *)
(* r.cols: every column name -> the raw values of the complete input (<< >>:   *)
(* column not given); r.o: the options.                                       *)
EXTENDS FP, Naturals, Integers, Sequences, FiniteSets, TLC, Bitwise

Pos == {"x", "y", "z", "ra", "dec", "r"}
Pairs2 == {<<"z1", "z2">>, <<"v1", "v2">>, <<"g1", "g2">>, <<"t1", "t2">>, <<"q1", "q2">>}
Fields == {"k", "z1", "z2", "v1", "v2", "g1", "g2", "t1", "t2", "q1", "q2"}
Floats == Pos \cup Fields \cup {"w", "wpos"}
AllCols == Floats \cup {"flag", "patch"}
Has(r, c) == Len(r.cols[c]) > 0

\* ------------------------------------------------------------ refused input
BadPosition(r) ==
  \/ Has(r, "x") # Has(r, "y")
  \/ Has(r, "ra") # Has(r, "dec")
  \/ ~Has(r, "x") /\ ~Has(r, "ra")
  \/ Has(r, "x") /\ (Has(r, "ra") \/ Has(r, "r")) /\ ~r.o.xyz
  \/ ~Has(r, "x") /\ Has(r, "z")
BadUnits(r) ==
  \/ Has(r, "ra") /\ (r.o.rau = "" \/ r.o.decu = "")
  \/ ~Has(r, "ra") /\ (r.o.rau # "" \/ r.o.decu # "")
  \/ Has(r, "x") /\ ((r.o.xu = "") # (r.o.yu = ""))
  \/ ~Has(r, "x") /\ (r.o.xu # "" \/ r.o.yu # "")
BadRows(r) ==
  \/ r.o.first < 1 \/ r.o.nth < 1
  \/ (r.o.last > 0 /\ r.o.last < r.o.first)
Odd(r) == {c \in AllCols : Has(r, c) /\ Len(r.cols[c]) # r.n}
BadFields(r, rand) == r.o.rand = rand /\ \E p \in Pairs2 : Has(r, p[1]) # Has(r, p[2])
BadPatch(r) ==
  \/ (r.o.npatch < 1 /\ r.o.npatch # -99)
  \/ r.o.npatch > 1 /\ Has(r, "patch")
       /\ \E i \in 1..Len(r.cols.patch) : i \in r.rows /\ r.cols.patch[i] >= r.o.npatch
  \/ r.o.sel > 0 /\ r.o.npatch = -99 /\ ~Has(r, "patch")
\* lengths that differ in the rows that are looked at
RowsOf(r, n) == LET last == IF r.o.last > 0 /\ r.o.last < n THEN r.o.last ELSE n
                IN IF last < r.o.first THEN 0 ELSE 1 + (last - r.o.first) \div r.o.nth
BadLengths(r) == \E c \in Odd(r) : RowsOf(r, Len(r.cols[c])) # RowsOf(r, r.n)
Refused(r) == r.o.unknown \/ BadPosition(r) \/ BadUnits(r) \/ BadRows(r) \/ (~BadRows(r) /\ BadLengths(r)) \/ BadFields(r, FALSE)

\* ------------------------------------------------------------- the pipeline
RECURSIVE Stride(_, _, _)
Stride(i, last, nth) == IF i > last THEN << >> ELSE <<i>> \o Stride(i + nth, last, nth)
Last(r) == IF r.o.last > 0 /\ r.o.last < r.n THEN r.o.last ELSE r.n
Rows(r) == Stride(r.o.first, Last(r), r.o.nth)
\* reading one patch of a catalog whose objects have patch numbers
Selected(r) == LET R == Rows(r)
               IN IF r.o.sel >= 0 /\ Has(r, "patch") THEN SelectSeq(R, LAMBDA i : r.cols.patch[i] = r.o.sel) ELSE R

Used(r) == {c \in Floats : Has(r, c) /\ ~(r.o.rand /\ c \in Fields)}
FlagBad(r, i) ==
  /\ Has(r, "flag")
  /\ LET f == r.cols.flag[i]
     IN IF r.o.ignore # -1 THEN (f & r.o.ignore) # 0 ELSE f # (f & r.o.ok)
HasNaN(r, i) == \E c \in Used(r) : FIsNaN(r.cols[c][i])
BadRow(r, i) == FlagBad(r, i) \/ HasNaN(r, i)

WPos(r, i) == IF ~Has(r, "wpos") THEN 0 ELSE IF BadRow(r, i) THEN 0 ELSE r.cols.wpos[i]
W(r, i) ==
  IF BadRow(r, i) THEN 0
  ELSE IF Has(r, "wpos") /\ FEq(r.cols.wpos[i], 0) THEN 0
  ELSE IF Has(r, "w") THEN r.cols.w[i] ELSE 1
Counts(r, i) == ~FEq(IF Has(r, "wpos") THEN WPos(r, i) ELSE W(r, i), 0)
Kept(r) == LET R == Selected(r) IN IF r.o.keep THEN R ELSE SelectSeq(R, LAMBDA i : Counts(r, i))
Weighted(r) == \* whether the weights are anything but all one by default
  LET R == Selected(r)
  IN Has(r, "w") \/ Has(r, "flag") \/ \E q \in 1..Len(R) : BadRow(r, R[q]) \/ (Has(r, "wpos") /\ FEq(r.cols.wpos[R[q]], 0))
SumW(r, R) == FSum([q \in 1..Len(R) |-> W(r, R[q])])

Unit(r, c) == CASE c = "x" -> IF r.o.xu = "" THEN 1 ELSE r.o.xu
                [] c = "y" -> IF r.o.yu = "" THEN 1 ELSE r.o.yu
                [] c = "ra" -> r.o.rau [] c = "dec" -> r.o.decu
                [] OTHER -> 1
Sign(r, c) == IF \E q \in 1..Len(r.o.flips) : r.o.flips[q] = c THEN -1 ELSE 1
Value(r, c, i) == FMul(Sign(r, c), FMul(Unit(r, c), r.cols[c][i]))

\* Cartesian positions on the sky
Sky(r, i) ==
  LET a == Value(r, "ra", i) d == Value(r, "dec", i) s == IF Has(r, "r") THEN r.cols.r[i] ELSE 1
  IN <<FMul(s, FMul(FCos(d), FCos(a))), FMul(s, FMul(FCos(d), FSin(a))), FMul(s, FSin(d))>>
Coords(r) == IF Has(r, "ra") THEN (IF Has(r, "r") THEN "3d" ELSE "spherical") ELSE IF Has(r, "z") THEN "3d" ELSE "flat"

\* The variance of a field:  sum w^2 (v - <v>)^2 / sum w,  <v> = sum w v / sum w
Var1(r, c, R) ==
  LET S == SelectSeq(R, LAMBDA i : ~FEq(W(r, i), 0))
      w == [q \in 1..Len(S) |-> W(r, S[q])] v == [q \in 1..Len(S) |-> Value(r, c, S[q])]
      m == FDiv(FDot(w, v), FSum(w))
  IN FDiv(FSum([q \in 1..Len(S) |-> LET d == FMul(w[q], FSub(v[q], m)) IN FMul(d, d)]), FSum(w))
Var2(r, p, R) == FMul("0.5", FAdd(Var1(r, p[1], R), Var1(r, p[2], R)))
Hint(r, c) == \E q \in 1..Len(r.o.hints) : r.o.hints[q] = c
Complex == [varz |-> <<"z1", "z2">>, varv |-> <<"v1", "v2">>, varg |-> <<"g1", "g2">>, vart |-> <<"t1", "t2">>,
            varq |-> <<"q1", "q2">>]

\* ------------------------------------------------------------------- judging
Near(x, e) == FClose(x, e, "1e-12", "1e-12")
Same(obs, R, F(_)) == Len(obs) = Len(R) /\ \A q \in 1..Len(R) : Near(obs[q], F(R[q]))
\* values of a bad row that is kept with no weight are not defined
SameOK(r, obs, R, F(_)) == Len(obs) = Len(R) /\ \A q \in 1..Len(R) : HasNaN(r, R[q]) \/ Near(obs[q], F(R[q]))

\* The columns and numbers of a catalog o that holds the input rows R
Columns(r, R, o) ==
  LET col(c) == IF Has(r, c) /\ ~(r.o.rand /\ c \in Fields) THEN SameOK(r, o[c], R, LAMBDA i : Value(r, c, i)) ELSE Len(o[c]) = 0
      sky(c, k) == IF Has(r, "x") THEN col(c) ELSE SameOK(r, o[c], R, LAMBDA i : Sky(r, i)[k])
  IN UNION {IF col(c) THEN {} ELSE {c} : c \in (Floats \ {"w", "wpos"}) \ {"x", "y", "z"}}
     \cup UNION {IF sky(c[1], c[2]) THEN {} ELSE {c[1]} : c \in {<<"x", 1>>, <<"y", 2>>, <<"z", 3>>}}
     \cup (IF Same(o.w, R, LAMBDA i : W(r, i)) THEN {} ELSE {"w"})
     \cup (IF IF Has(r, "wpos") THEN Same(o.wpos, R, LAMBDA i : WPos(r, i)) ELSE Len(o.wpos) = 0 THEN {} ELSE {"wpos"})
     \cup (IF o.coords = Coords(r) THEN {} ELSE {"coords"})
     \cup (IF o.ntot = Len(R) THEN {} ELSE {"ntot"})
     \cup (IF o.nobj = Len(SelectSeq(R, LAMBDA i : ~FEq(W(r, i), 0))) THEN {} ELSE {"nobj"})
     \cup (IF Near(o.sumw, SumW(r, R)) THEN {} ELSE {"sumw"})
     \cup (IF Near(o.sumw2, FSum([q \in 1..Len(R) |-> FMul(W(r, R[q]), W(r, R[q]))])) THEN {} ELSE {"sumw2"})
\* The variances of its fields, unless they were given
HasW(r, R) == \E q \in 1..Len(R) : ~FEq(W(r, R[q]), 0)
Variances(r, R, o) ==
  (IF FClose(o.vark, IF Hint(r, "vark") THEN r.o.hint ELSE IF Has(r, "k") /\ ~r.o.rand THEN Var1(r, "k", R) ELSE 0, "1e-9", "1e-12")
   THEN {} ELSE {"vark"})
  \cup UNION {IF FClose(o[v], IF Hint(r, v) THEN r.o.hint
                              ELSE IF Has(r, Complex[v][1]) /\ ~r.o.rand THEN Var2(r, Complex[v], R) ELSE 0, "1e-9", "1e-12")
              THEN {} ELSE {v} : v \in DOMAIN Complex}
PMax(r) == IF Has(r, "patch") THEN 1 + (CHOOSE m \in {r.cols.patch[i] : i \in r.rows} : \A i \in r.rows : r.cols.patch[i] <= m) ELSE 1
NPatch(r) == IF r.o.npatch > PMax(r) THEN r.o.npatch ELSE PMax(r)

CatColumns(r) ==
  LET R == Kept(r) o == r.out
      pat == IF Has(r, "patch") /\ r.o.sel < 0 THEN Same(o.patch, R, LAMBDA i : r.cols.patch[i])
             ELSE IF r.o.sel >= 0 THEN Len(o.patch) = Len(R) /\ \A q \in 1..Len(R) : o.patch[q] = r.o.sel
             ELSE Len(o.patch) = 0 \/ r.o.npatch > 1
  IN Columns(r, R, o) \cup Variances(r, R, o)
     \cup (IF pat THEN {} ELSE {"patch"})
     \cup (IF o.npatch = NPatch(r) THEN {} ELSE {"npatch"})
     \cup (IF o.nontrivial = Weighted(r) THEN {} ELSE {"nontrivial_w"})
     \cup (IF Len(r.changed) = 0 THEN {} ELSE {"input_changed"})

\* rows of the input that are looked at, as a set
WithRows(r) == [r EXCEPT !.rows = {Rows(r)[q] : q \in 1..Len(Rows(r))}]

CatJudge(r0) ==
  IF (~BadRows(r0) /\ Odd(r0) # {} /\ ~Refused(r0)) \/ BadFields(r0, TRUE) THEN {"@skip"}
  ELSE IF Refused(r0) THEN (IF r0.err = "" THEN {"accepted_invalid"} ELSE {"@nontrivial"})
  ELSE LET r == WithRows(r0)
           S == Selected(r)
       IN IF Len(Rows(r)) = 0 \/ BadPatch(r) THEN (IF r.err = "" THEN {"accepted_invalid"} ELSE {"@nontrivial"})
          ELSE IF Len(S) = 0 THEN {"@skip"}
          ELSE IF Weighted(r) /\ FEq(SumW(r, S), 0) THEN (IF r.err = "" THEN {"accepted_no_weight"} ELSE {"@nontrivial"})
          ELSE IF r.err # "" THEN {"raised"}
          ELSE CatColumns(r) \cup {"@nontrivial"}
=============================================================================
