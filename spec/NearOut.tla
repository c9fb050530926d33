------------------------------ MODULE NearOut ------------------------------
(* Objects of a field within a separation of a point.  A record holds the     *)
(* objects and the query point as they were given (angles with their units),  *)
(* and the count and index list returned by each of several fields.           *)
EXTENDS PairSpec

PI == "3.14159265358979323846"
UnitOf(u) == CASE u \in {"radians", "rad"} -> 1
               [] u \in {"degrees", "deg"} -> FDiv(PI, 180)
               [] u \in {"hours", "hr"} -> FDiv(PI, 12)
               [] u = "arcmin" -> FDiv(PI, 10800)
               [] u = "arcsec" -> FDiv(PI, 648000)
               [] OTHER -> 1
\* position in cartesian coordinates of the field: on the unit sphere when the field is spherical
Place(r, p, ua, ud) ==
  LET q == IF r.coords \in {"sphere", "sphere3"} THEN [i \in 1..Len(p) |-> IF i = 1 THEN FMul(p[1], UnitOf(ua)) ELSE IF i = 2 THEN FMul(p[2], UnitOf(ud)) ELSE p[i]] ELSE p
      c == Cart(r.coords, q)
  IN IF r.field = "spherical" THEN Unit(c) ELSE c
\* separation: the angle on the sphere, else the straight distance
Apart(r, a, b) == IF r.field = "spherical" THEN Sep("Arc", <<0, 0, 0>>, a, b) ELSE Sep("Euclidean", <<0, 0, 0>>, a, b)
Limit(r) == IF r.field = "spherical" THEN FMul(r.sep, UnitOf(r.sep_units)) ELSE r.sep

NearFailing(r) ==
  LET rows == SelectSeq([i \in 1..Len(r.pts) |-> i], LAMBDA i : r.keep \/ ~FEq(r.w[i], 0))   \* rows the catalog keeps
      P == TLCEval([i \in 1..Len(rows) |-> TLCEval(Place(r, r.pts[rows[i]], r.ra_units, r.dec_units))])
      x == TLCEval(Place(r, r.x, r.x_ra_units, r.x_dec_units))
      D == TLCEval([i \in 1..Len(rows) |-> TLCEval(Apart(r, x, P[i]))])
      L == Limit(r)
      edge == {i \in 1..Len(rows) : FClose(D[i], L, "1e-9", "1e-12")}
      sure == {i \in 1..Len(rows) : FLt(D[i], L)} \ edge
      V(v) == LET got == {v.list[k] + 1 : k \in 1..Len(v.list)} IN
              IF v.err # "" THEN {"raised"}
              ELSE (IF Cardinality(got) = Len(v.list) THEN {} ELSE {"repeated_index"})
                   \cup (IF got \subseteq 1..Len(rows) THEN {} ELSE {"bad_index"})
                   \cup (IF got \subseteq (sure \cup edge) THEN {} ELSE {"too_far_listed"})
                   \cup (IF sure \subseteq got THEN {} ELSE {"near_not_listed"})
                   \cup (IF Cardinality(sure) <= v.count /\ v.count <= Cardinality(sure) + Cardinality(edge) THEN {} ELSE {"count"})
  IN UNION {V(r.vars[q]) : q \in 1..Len(r.vars)}
     \cup (IF edge # {} THEN {"@ambiguous"} ELSE {})
     \cup (IF sure # {} /\ Cardinality(sure) < Len(rows) THEN {"@nontrivial"} ELSE {})
NearJudge(r) == IF r.err # "" THEN {"raised"} ELSE NearFailing(r)
=============================================================================
