------------------------------ MODULE AccumOut ------------------------------
(* Recorded histories of operations on up to three correlation objects,       *)
(* judged against Accum: after every operation the object operated on holds   *)
(* what its abstract state says (sums over its bag of pieces; normalised when *)
(* finalised), and no other object has changed at all.                        *)
EXTENDS FP, Integers, FiniteSets, StateTrace

A == INSTANCE Accum WITH Objs <- 1..3, Pieces <- 1..3, MaxCount <- 99, obj <- st
N3 == 1..3
Fld(c, f, k) == c.arr[f][k]
SumF(bag, ps, f, k) == FSum([p \in N3 |-> FMul(bag[p], ps[p].arr[f][k])])
AbsF(bag, ps, f, k) == FSum([p \in N3 |-> FMul(bag[p], FAbs(ps[p].arr[f][k]))])
MaxOf(ps, f) == LET RECURSIVE M(_, _, _)
                    M(p, k, m) == IF p > 3 THEN m ELSE IF k > Len(ps[p].arr[f]) THEN M(p + 1, 1, m)
                                  ELSE M(p, k + 1, FMax(m, FAbs(ps[p].arr[f][k])))
                IN M(1, 1, 0)
Near(a, b, s) == FFinite(a) /\ FClose(a, b, "1e-9", FMul("1e-10", FMax(s, "1e-4")))

\* chord -> angle, then to the user's units
Conv(h, kind, x) ==
  LET y == IF h.chord THEN (IF kind = "len" THEN FMul(2, FAsin(FDiv(x, 2)))
                            ELSE FLog(FMul(2, FAsin(FDiv(FExp(x), 2))))) ELSE x
  IN IF kind = "len" THEN FDiv(y, h.unit) ELSE FSub(y, FLog(h.unit))
\* field f of an object in abstract state s, bin k
FieldOK(h, s, f, val) ==
  LET ps == h.pieces
      sc == MaxOf(ps, f)
      kind == h.kinds[f]
  IN /\ Len(val) = Len(ps[1].arr[f])
     /\ \A k \in 1..Len(val) :
          LET sum == SumF(s.bag, ps, f, k)
          IN IF ~s.fin \/ kind = "sum" THEN Near(val[k], sum, sc)
             ELSE LET w == SumF(s.bag, ps, h.wf[f], k)
                  IN IF FEq(w, 0) THEN FClose(val[k], h.nominal[f][k], "1e-9", "1e-12")
                     ELSE IF kind = "norm" THEN Near(FMul(val[k], w), sum, sc)
                     ELSE FClose(val[k], Conv(h, kind, FDiv(sum, w)), "1e-8", "1e-9")
Keys(h, res) == UNION {IF res[p] = 0 THEN {} ELSE {h.pieces[p].res[i].key : i \in 1..Len(h.pieces[p].res)} : p \in N3}
ResOf(h, p, key) == {i \in 1..Len(h.pieces[p].res) : h.pieces[p].res[i].key = key}
ResSum(h, res, key, f, k) ==
  FSum([p \in N3 |-> LET i == ResOf(h, p, key)
                     IN IF res[p] = 0 \/ i = {} THEN 0
                        ELSE FMul(res[p], h.pieces[p].res[CHOOSE x \in i : TRUE].arr[f][k])])
ResultsOK(h, s, q) ==
  (IF {q[i].key : i \in 1..Len(q)} = Keys(h, s.res) /\ Cardinality({q[i].key : i \in 1..Len(q)}) = Len(q) THEN {} ELSE {"results_keys"})
  \cup UNION {UNION {IF \A k \in 1..Len(q[i].arr[f]) : Near(q[i].arr[f][k], ResSum(h, s.res, q[i].key, f, k), h.rscale[f])
                     THEN {} ELSE {"results:" \o f} : f \in DOMAIN q[i].arr} : i \in 1..Len(q)}

\* variance of a field per component over all the objects that were processed
VarOf(let, cat) ==
  LET n == Len(cat)
      sw == FSum([i \in 1..n |-> cat[i].w])
      V(part) == LET mean == FDiv(FSum([i \in 1..n |-> FMul(cat[i].w, cat[i].v[part])]), sw)
                 IN FDiv(FSum([i \in 1..n |-> FMul(FMul(cat[i].w, cat[i].w),
                                    FMul(FSub(cat[i].v[part], mean), FSub(cat[i].v[part], mean)))]), sw)
  IN IF let = "N" THEN 1 ELSE IF let = "K" THEN V(1) ELSE FDiv(FAdd(V(1), V(2)), 2)
Slot(h, s, x) ==     \* all objects in position x of the processed pieces
  LET RECURSIVE Cat(_, _)
      Cat(p, n) == IF p > 3 THEN << >> ELSE IF n = 0 THEN Cat(p + 1, IF p = 3 THEN 0 ELSE s.var[p + 1])
                   ELSE h.pieces[p].cats[x] \o Cat(p, n - 1)
  IN Cat(1, s.var[1])
VarNum(h, s) == LET n == Len(h.letters)
                    V == TLCEval([x \in 1..n |-> VarOf(h.letters[x], Slot(h, s, x))])
                IN FMul(h.vfac, IF n = 2 THEN FMul(V[1], V[2]) ELSE FMul(V[1], FMul(V[2], V[3])))
VarOK(h, s, num, v) ==
  \A k \in 1..Len(v) : LET w == SumF(s.bag, h.pieces, h.vw, ((k - 1) % Len(h.pieces[1].arr[h.vw])) + 1)
                       IN IF FEq(w, 0) THEN FClose(v[k], 0, 0, "1e-12") ELSE FClose(v[k], FDiv(num, w), "1e-7", "1e-12")
VarJudgeable(h, s) == s.vok /\ A!Size(s.var) > 0 /\ \A p \in N3 : s.var[p] > 0 => ~h.pieces[p].novar

SameList(a, b) == Len(a) = Len(b) /\ \A k \in 1..Len(a) : a[k] = b[k]
T(x) == x = 1
AStart(r) == [h |-> r, o |-> [q \in N3 |-> IF q = 1 THEN A!New ELSE A!Dead], dig |-> r.dig, given |-> [q \in N3 |-> 0]]
NewObj(s, r) ==
  LET o == s.o[r.o] IN
  CASE r.op = "proc" -> A!Processed(o, r.p, T(r.init), T(r.fin), T(r.low))
    [] r.op = "add" -> A!Added(o, s.o[r.q])
    [] r.op = "clear" \/ r.op = "create" \/ r.op = "cleared" -> A!New
    [] r.op = "again" -> A!Processed(o, 1, TRUE, TRUE, FALSE)
    [] r.op = "finalize" -> A!Finalized(o)
    [] r.op = "copy" -> s.o[r.q]          \* object r.o becomes a copy of r.q
    [] OTHER -> o
AAfter(s, r) ==
  IF r.op = "new" \/ r.err # "" THEN s
  ELSE [s EXCEPT !.o[r.o] = NewObj(s, r), !.dig = r.dig,
                 !.given[r.o] = CASE r.op = "finalize" -> r.vnum [] r.op = "copy" -> s.given[r.q] [] OTHER -> @]

Onego(r) == IF Len(r.onego) = 0 THEN {}
            ELSE LET g == r.onego[1] ones == [p \in N3 |-> 1]
                 IN UNION {IF \A k \in 1..Len(g[f]) : Near(g[f][k], SumF(ones, r.pieces, f, k), MaxOf(r.pieces, f))
                           THEN {} ELSE {"not_as_in_one_go:" \o f} : f \in DOMAIN g}
AJudge(s, r) ==
  IF r.err # "" THEN {"raised:" \o r.op}
  ELSE IF r.op = "new" THEN Onego(r) \cup (IF r.nontrivial THEN {"@nontrivial"} ELSE {})
  ELSE
  LET h == s.h
      t == TLCEval(NewObj(s, r))
      still == IF r.op \in {"look", "bad", "cov", "same"} THEN N3 ELSE N3 \ {r.o}
  IN (IF \A q \in still : (r.op = "cov" /\ q = r.o) \/ r.dig[q] = s.dig[q] THEN {} ELSE {"another_object_changed:" \o r.op})
     \cup (IF r.op = "bad" /\ ~r.refused THEN {"accepted:" \o r.what} ELSE {})
     \cup (IF r.op = "same"
           THEN UNION {IF r.pairs[i].eq = ~r.pairs[i].changed THEN {} ELSE {"equality:" \o r.pairs[i].what} : i \in 1..Len(r.pairs)}
           ELSE {})
     \cup (IF r.op = "copy" /\ r.dig[r.o] # r.dig[r.q] THEN {"copy_differs"} ELSE {})
     \cup (IF \A i \in 1..Len(r.eq) : r.eq[i].eq = (r.adig[r.eq[i].a] = r.adig[r.eq[i].b]) THEN {} ELSE {"equality"})
     \cup (IF "vals" \in DOMAIN r
           THEN UNION {IF FieldOK(h, t, f, r.vals[f]) THEN {} ELSE {f \o "_after_" \o r.op} : f \in DOMAIN r.vals}
                \cup ResultsOK(h, t, r.res)
           ELSE {})
     \cup (IF r.op = "look" /\ t.fin /\ Len(r.var) > 0
           THEN IF VarJudgeable(h, t) THEN (IF VarOK(h, t, VarNum(h, t), r.var) THEN {} ELSE {"variance"})
                ELSE IF FLt(0, s.given[r.o]) /\ ~t.vok /\ r.byhand
                     THEN (IF VarOK(h, t, FMul(h.vfac, s.given[r.o]), r.var) THEN {} ELSE {"variance_by_hand"}) ELSE {}
           ELSE {})
     \cup (IF r.op = "cov"
           THEN IF r.canonbag # <<t.res[1], t.res[2], t.res[3]>> THEN {"harness"}
                ELSE IF Len(r.cov) = Len(r.canon) /\ \A k \in 1..Len(r.cov) : FClose(r.cov[k], r.canon[k], "1e-6", r.ctol)
                     THEN {} ELSE {"covariance"}
           ELSE {})
     \cup (IF r.op \in {"cleared", "again"}
           THEN (IF DOMAIN r.obs = DOMAIN r.new THEN {} ELSE {r.op \o ":attributes"})
                \cup UNION {IF SameList(r.obs[n], r.new[n]) THEN {} ELSE {r.op \o ":" \o n} : n \in DOMAIN r.obs \cap DOMAIN r.new}
           ELSE {})
=============================================================================
