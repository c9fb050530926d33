------------------------------ MODULE CatWrite ------------------------------
(* Writing a catalog: which columns appear, in which order, with which values; *)
(* and the catalog read back from the file is the one the file describes.      *)
(* r: the input of the catalog (CatInput) and                                  *)
(*   kind, prec   format and (ASCII) precision;  wu  units when it is written  *)
(*   lab          its patch labels (<< >>: not divided)                        *)
(*   names        column names returned by write                               *)
(*   hdr, file    column names in the file, and name -> values, read           *)
(*                independently of TreeCorr                                    *)
(*   back         [n, cols, o, out]: the file as an input, and what the        *)
(*                catalog read from it shows                                   *)
EXTENDS CatInput

WUnit(r, c) == IF c \in DOMAIN r.wu /\ r.wu[c] # "" THEN r.wu[c] ELSE Unit(r, c)
PosNames(r) == IF Has(r, "ra") THEN (IF Has(r, "r") THEN <<"ra", "dec", "r">> ELSE <<"ra", "dec">>)
               ELSE (IF Has(r, "z") THEN <<"x", "y", "z">> ELSE <<"x", "y">>)
FieldNames == <<"k", "z1", "z2", "v1", "v2", "g1", "g2", "t1", "t2", "q1", "q2">>
Expected(r) ==
  PosNames(r)
  \o (IF Weighted(r) THEN <<"w">> ELSE << >>)
  \o (IF Has(r, "wpos") THEN <<"wpos">> ELSE << >>)
  \o SelectSeq(FieldNames, LAMBDA c : Has(r, c) /\ ~r.o.rand)
  \o (IF Len(r.lab) > 0 THEN <<"patch">> ELSE << >>)

\* (a catalog read from an ASCII file through pandas has its values only up to
\* the last digits: its parser is not exact)
\* %.{p}e keeps p digits after the first: half a unit of the last one
Tol(r) == IF r.kind = "ASCII" /\ r.prec < 14 THEN FMul("0.6", FExp(FMul(-r.prec, FLog(10)))) ELSE IF r.style = "ASCII" THEN "1e-13" ELSE "4e-15"
Small(r) == IF r.style = "ASCII" THEN "1e-15" ELSE "1e-300"
Written(r, R, c, q) ==
  LET i == R[q]
  IN IF c = "w" THEN W(r, i) ELSE IF c = "wpos" THEN WPos(r, i)
     ELSE IF c = "patch" THEN r.lab[q]
     ELSE FDiv(Value(r, c, i), WUnit(r, c))
FileOK(r, R, c) ==
  LET v == r.file[c]
  IN Len(v) = Len(R)
     /\ \A q \in 1..Len(R) : (HasNaN(r, R[q]) /\ c \notin {"w", "wpos", "patch"})
                             \/ FClose(v[q], Written(r, R, c, q), Tol(r), Small(r))
                             \* (the conversions to radians and back)
                             \/ (c \in Pos /\ FClose(v[q], Written(r, R, c, q), FAdd(Tol(r), "4e-15"), Small(r)))

WJudge(r0) ==
  LET r == WithRows(r0)
      R == Kept(r)
  IN IF Len(R) = 0 \/ (Weighted(r) /\ FClose(SumW(r, Selected(r)), 0, 0, "1e-12")) THEN {"@skip"}
     ELSE IF r.err # "" THEN {"raised"}
     ELSE LET b == WithRows(r.back)
          IN (IF r.names = Expected(r) THEN {} ELSE {"names"})
             \cup (IF r.hdr = r.names THEN {} ELSE {"header"})
             \cup (IF r.hdr = Expected(r) THEN UNION {IF FileOK(r, R, r.hdr[q]) THEN {} ELSE {"file:" \o r.hdr[q]} : q \in 1..Len(r.hdr)} ELSE {})
             \cup (IF Len(r.lab) \in {0, Len(R)} THEN {} ELSE {"labels"})
             \cup {"back:" \o c : c \in Columns(b, Kept(b), b.out)}
             \cup (IF r.back.out.patch = r.lab THEN {} ELSE {"back:patch"})
             \cup {"@nontrivial"}
=============================================================================
