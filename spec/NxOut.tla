-------------------------------- MODULE NxOut --------------------------------
(* Count-field correlations with randoms: a history of calculations with      *)
(* different randoms (or none) on one correlation.                            *)
(* r.dk, r.rz[name]: [n, w, x, y, parts: seq of [key, w, x, y]] with x, y the *)
(* weighted sums of the two field components; r.steps: the calculations, in   *)
(* order, each with what the correlation reported afterwards.                 *)
EXTENDS EstOut

Ratio(a, b) == IF FEq(b, 0) THEN 0 ELSE FDiv(a, b)
MeanOf(s, w) == TLCEval([k \in 1..Len(w) |-> Ratio(s[k], w[k])])
Minus(a, b) == [k \in 1..Len(a) |-> FSub(a[k], b[k])]

\* mean field of a resampling of c: [x, y, w, none]
NxResample(m, c, i, d) ==
  LET P == c.parts
      M == [q \in 1..Len(P) |-> Mult(m, c.n, P[q].key, i, d)]
      nb == Len(c.w)
      Sum(f(_)) == TLCEval([k \in 1..nb |-> FSum([q \in 1..Len(P) |-> IF M[q] = 0 THEN 0 ELSE FMul(M[q], f(P[q])[k])])])
      w == Sum(LAMBDA p : p.w)
  IN IF Len(P) = 0 THEN [w |-> c.w, x |-> MeanOf(c.x, c.w), y |-> MeanOf(c.y, c.w)]
     ELSE [w |-> w, x |-> MeanOf(Sum(LAMBDA p : p.x), w), y |-> MeanOf(Sum(LAMBDA p : p.y), w)]

\* the compensated statistic of a row: what the selected data says minus what the selected randoms say
\* (none: neither has anything in the selection, so that the value means nothing)
NxRow(r, rz, m, i, d) ==
  LET D == NxResample(m, r.dk, i, d)
      some == \E q \in 1..Len(r.dk.parts) : Mult(m, r.dk.n, r.dk.parts[q].key, i, d) > 0
      R == NxResample(m, rz, i, d)
      rsome == \E q \in 1..Len(rz.parts) : Mult(m, rz.n, rz.parts[q].key, i, d) > 0
  IN IF rz = << >> \/ (~some /\ ~rsome) THEN [w |-> D.w, x |-> D.x, y |-> D.y, none |-> rz # << >> /\ Len(r.dk.parts) > 0]
     ELSE [w |-> D.w, x |-> Minus(D.x, R.x), y |-> Minus(D.y, R.y), none |-> FALSE]

Near(a, b, s) == Len(a) = Len(b) /\ \A k \in 1..Len(a) : FClose(a[k], b[k], "1e-8", FMul("1e-9", s))

NxEst(r, rz, e) ==
  LET m == e.method
      drawn == m \in {"bootstrap", "marked_bootstrap"}
      nr == IF drawn THEN r.nboot ELSE r.np
      Rows == TLCEval([i \in 1..nr |-> TLCEval(NxRow(r, rz, m, i - 1, IF drawn THEN e.draws[i] ELSE << >>))])
      W == TLCEval([i \in 1..nr |-> FSum(Rows[i].w)])
      mustraise == m = "sample" /\ \E i \in 1..nr : FEq(W[i], 0)
      vOK == Len(e.v) = nr /\ \A i \in 1..nr : Rows[i].none \/ Near(e.v[i], IF e.func = "im" THEN Rows[i].y ELSE Rows[i].x, r.scale)
      wOK == Len(e.w) = nr /\ \A i \in 1..nr : FClose(e.w[i], W[i], "1e-8", "1e-10")
  IN IF drawn /\ ~(Len(e.draws) = nr /\ \A i \in 1..nr : Len(e.draws[i]) = r.np) THEN {"draws"}
     ELSE (IF vOK THEN {} ELSE {"design_" \o m \o "_" \o e.func})
          \cup (IF wOK THEN {} ELSE {"weights_" \o m})
          \cup (IF mustraise THEN (IF e.raised THEN {} ELSE {"sample_of_empty_patch_accepted"})
                ELSE IF e.raised THEN {"raised_" \o m}
                ELSE IF CovFrom(m, e.v, e.w, e.C) THEN {} ELSE {"cov_" \o m})
          \cup (IF nr > 1 /\ ~Near(Rows[1].x, Rows[2].x, 1) THEN {"@nontrivial"} ELSE {})

NxStep(r, s) ==
  LET rz == IF s.rz = "" THEN << >> ELSE r.rz[s.rz]
      rx == MeanOf(r.dk.x, r.dk.w)
      ry == MeanOf(r.dk.y, r.dk.w)
      ex == IF rz = << >> THEN rx ELSE Minus(rx, MeanOf(rz.x, rz.w))
      ey == IF rz = << >> THEN ry ELSE Minus(ry, MeanOf(rz.y, rz.w))
      patched == Len(r.dk.parts) > 0
  IN (IF Near(s.xi, ex, r.scale) THEN {} ELSE {"xi"})
     \cup (IF s.im = << >> \/ Near(s.im, ey, r.scale) THEN {} ELSE {"xi_im"})
     \cup (IF Near(s.raw, rx, r.scale) /\ (s.rawim = << >> \/ Near(s.rawim, ry, r.scale)) THEN {} ELSE {"raw"})
     \cup (IF s.ret THEN {} ELSE {"returned_differs_from_attributes"})
     \cup (IF s.others THEN {} ELSE {"weights_or_randoms_changed"})
     \* variances: without randoms, that of the raw data (read back as rawvar0 from a fresh correlation)
     \cup (IF r.method \in {"bootstrap", "marked_bootstrap"} \/ s.refused \/ Close(s.rawvar, r.rawvar0) THEN {} ELSE {"raw_var"})
     \cup (IF s.refused THEN {}
           ELSE IF rz = << >> THEN (IF r.method \in {"bootstrap", "marked_bootstrap"} \/ Close(s.var, r.rawvar0) THEN {} ELSE {"var"})
           ELSE IF ~patched THEN (IF Close(s.var, [k \in 1..Len(s.var) |-> FAdd(r.rawvar0[k], rz.var[k])]) THEN {} ELSE {"var"})
           ELSE IF r.method = "shot" THEN {}
           ELSE IF \E q \in 1..Len(s.est) : /\ s.est[q].method = r.method /\ ~s.est[q].raised /\ s.est[q].func = "stat"
                                            /\ ~\A k \in 1..Len(s.var) : FClose(s.var[k], s.est[q].C[k][k], "1e-7", "1e-13")
                THEN {"var"} ELSE {})
     \* the covariance attribute is that of the same statistic
     \cup (IF s.refused \/ r.method \in {"bootstrap", "marked_bootstrap"} \/ Close(s.covdiag, s.var) THEN {} ELSE {"cov_attribute"})
     \cup UNION {NxEst(r, rz, s.est[q]) : q \in 1..Len(s.est)}

NxPartsAdd(c) ==
  Len(c.parts) = 0 \/
    \A k \in 1..Len(c.w) : /\ FClose(FSum([q \in 1..Len(c.parts) |-> c.parts[q].w[k]]), c.w[k], "1e-8", "1e-12")
                           /\ FClose(FSum([q \in 1..Len(c.parts) |-> c.parts[q].x[k]]), c.x[k], "1e-8", "1e-9")
                           /\ FClose(FSum([q \in 1..Len(c.parts) |-> c.parts[q].y[k]]), c.y[k], "1e-8", "1e-9")
NxJudge(r) ==
  IF r.err # "" THEN {"raised"}
  ELSE (IF NxPartsAdd(r.dk) THEN {} ELSE {"parts"})
       \cup (IF r.badaccepted THEN {"mismatched_randoms_accepted"} ELSE {})
       \cup UNION {NxStep(r, r.steps[q]) : q \in 1..Len(r.steps)}
=============================================================================
