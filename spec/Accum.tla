------------------------------- MODULE Accum -------------------------------
(* What a user may do with correlation objects: process a piece of the data  *)
(* (with or without re-initialising / finalising), add another object, clear, *)
(* copy, finalise.  The abstract state of an object is the bag of pieces that *)
(* its bins hold (bag), the bag of pieces that its per-patch results hold     *)
(* (res), the bag its variance is to be computed from (var, valid while vok), *)
(* and whether it is finalised.  An object is only accumulated into while it  *)
(* is not finalised.                                                          *)
EXTENDS Naturals, Sequences, FiniteSets
CONSTANTS Objs, Pieces, MaxCount
VARIABLE obj
vars == <<obj>>
Zero == [p \in Pieces |-> 0]
Plus(b, p) == [b EXCEPT ![p] = @ + 1]
Join(b, c) == [p \in Pieces |-> b[p] + c[p]]
New == [live |-> TRUE, bag |-> Zero, res |-> Zero, var |-> Zero, vok |-> TRUE, fin |-> FALSE]
Dead == [New EXCEPT !.live = FALSE]
Init == obj = [o \in Objs |-> IF o = 1 THEN New ELSE Dead]
Size(b) == LET RECURSIVE Sum(_)
               Sum(S) == IF S = {} THEN 0 ELSE LET p == CHOOSE x \in S : TRUE IN b[p] + Sum(S \ {p})
           IN Sum(Pieces)

\* one call of process; init: start over; fin: finalise at the end.  low: the low-level call without per-patch results
Processed(s, p, init, fin, low) ==
  LET b == IF init THEN New ELSE s
  IN [b EXCEPT !.bag = Plus(@, p), !.res = IF low THEN @ ELSE Plus(@, p),
               !.var = Plus(@, p), !.vok = @ /\ ~low, !.fin = fin]
Process(o, p, init, fin, low) ==
  /\ obj[o].live /\ (init \/ ~obj[o].fin) /\ (low => ~init /\ ~fin)
  /\ init \/ Size(obj[o].bag) < MaxCount
  /\ obj' = [obj EXCEPT ![o] = Processed(@, p, init, fin, low)]
Added(s, t) == [s EXCEPT !.bag = Join(@, t.bag), !.vok = FALSE]
Add(o, q) ==
  /\ obj[o].live /\ obj[q].live /\ ~obj[o].fin /\ ~obj[q].fin
  /\ Size(obj[o].bag) + Size(obj[q].bag) <= MaxCount
  /\ obj' = [obj EXCEPT ![o] = Added(@, obj[q])]
Clear(o) == obj[o].live /\ obj' = [obj EXCEPT ![o] = New]
Copy(o, q) == obj[o].live /\ o # q /\ obj' = [obj EXCEPT ![q] = obj[o]]
Create(o) == ~obj[o].live /\ obj' = [obj EXCEPT ![o] = New]
\* finalising by hand: the variances are given by the caller
Finalized(s) == [s EXCEPT !.fin = TRUE, !.vok = FALSE]
Finalize(o) == obj[o].live /\ ~obj[o].fin /\ obj' = [obj EXCEPT ![o] = Finalized(@)]
\* looking at any derived quantity, a refused addition, comparing: nothing changes
Look(o) == obj[o].live /\ UNCHANGED obj

Next == \E o \in Objs :
          \/ \E p \in Pieces, i \in BOOLEAN, f \in BOOLEAN, l \in BOOLEAN : Process(o, p, i, f, l)
          \/ \E q \in Objs : Add(o, q) \/ Copy(o, q)
          \/ Clear(o) \/ Create(o) \/ Finalize(o) \/ Look(o)
Spec == Init /\ [][Next]_vars
\* everything in the per-patch results is also in the bins
Consistent == \A o \in Objs : \A p \in Pieces : obj[o].res[p] <= obj[o].bag[p]
=============================================================================
