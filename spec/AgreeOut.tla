------------------------------ MODULE AgreeOut ------------------------------
(* Different ways of computing the same thing must agree.  A record holds a   *)
(* reference output (field name -> list of numbers), and variants, each with  *)
(* the same fields; every field of every variant must equal the reference up  *)
(* to rounding relative to the largest number in it.                          *)
(* r.exact: names of fields that have to be identical.                        *)
EXTENDS FP, Naturals, Sequences, TLC

SameField(a, b, rt, at) ==
  /\ Len(a) = Len(b)
  /\ LET s == FMul(at, FMax(FMaxAbs(a), "1e-3")) IN \A k \in 1..Len(a) : FClose(a[k], b[k], rt, s)

AgreeVariant(r, v) ==
  IF v.err # "" THEN {v.name \o ":raised"}
  ELSE IF DOMAIN v.out # DOMAIN r.ref THEN {v.name \o ":fields"}
  ELSE UNION {IF (IF n \in {r.exact[q] : q \in 1..Len(r.exact)} THEN Len(v.out[n]) = Len(r.ref[n]) /\ \A k \in 1..Len(r.ref[n]) : FEq(v.out[n][k], r.ref[n][k])
                  ELSE SameField(v.out[n], r.ref[n], r.rtol, r.atol))
              THEN {} ELSE {v.name \o ":" \o n} : n \in DOMAIN r.ref}

AgreeJudge(r) ==
  IF r.err # "" THEN {"raised"}
  ELSE UNION {AgreeVariant(r, r.vars[q]) : q \in 1..Len(r.vars)}
       \cup (IF r.nontrivial THEN {"@nontrivial"} ELSE {})
=============================================================================
