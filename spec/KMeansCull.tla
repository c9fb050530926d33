---------------------------- MODULE KMeansCull ----------------------------
(* How the implementation finds the nearest center of every object: it walks  *)
(* the tree with one array of candidate centers, moving the closest one to    *)
(* the front and dropping from the end those that cannot be closest for any   *)
(* object of the cell; both children reuse the same array.                    *)
(* Positions are integers on a line (coordinates doubled); any tree, i.e. any *)
(* division of a cell and any center within its extent.  With Alt a penalty   *)
(* is added to the squared distance.                                          *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS N, L, K, Alt, Pen, Greedy   \* Greedy: (defect, to show that the model can fail) cull with half the margin

Obj == 1..N
Abs(x) == IF x < 0 THEN -x ELSE x
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
MaxOf(S) == CHOOSE x \in S : \A y \in S : x >= y
Sq(x) == x * x

VARIABLES pos, cen, pen, stack, cand, label
vars == <<pos, cen, pen, stack, cand, label>>

Centers(S) == LET P == {pos[i] : i \in S} IN MinOf(P)..MaxOf(P)
Cell(S, c) == [o |-> S, c |-> c, s |-> MaxOf({Abs(pos[i] - c) : i \in S})]
Cells(S) == {Cell(S, c) : c \in Centers(S)}
Halves(S) == {A \in SUBSET S : A # {} /\ A # S /\ MinOf(S) \in A}

Dist(i, k) == Sq(pos[i] - cen[k]) + pen[k]
Swap(a, i, j) == [a EXCEPT ![i] = a[j], ![j] = a[i]]

\* first pass: bring the closest candidate to the front
RECURSIVE Closest(_, _, _, _, _, _)
Closest(c, a, sv, j, n, best) ==
  IF j > n THEN [a |-> a, sv |-> sv, best |-> best]
  ELSE LET d == Sq(c.c - cen[a[j]])
           sv1 == [sv EXCEPT ![j] = d]
       IN IF d + pen[a[j]] < best THEN Closest(c, Swap(a, 1, j), Swap(sv1, 1, j), j + 1, n, d + pen[a[j]])
          ELSE Closest(c, a, sv1, j + 1, n, best)
Root(x) == CHOOSE y \in 0..(2 * L) : y * y = x
\* second pass: drop the candidates that cannot be closest for any object of the cell
RECURSIVE Cull(_, _, _, _, _)
Cull(c, a, sv, j, n) ==
  IF j = 1 THEN [a |-> a, n |-> n]
  ELSE LET md == Root(sv[1])
           m == IF Greedy THEN c.s ELSE 2 * c.s
           d == Root(sv[j])
           far == IF ~Alt THEN sv[j] > Sq(md + m)
                  ELSE (IF c.s > d THEN 0 ELSE Sq(d - c.s) + pen[a[j]]) > Sq(md + (m \div 2)) + pen[a[1]]
       IN IF far THEN Cull(c, IF j # n THEN Swap(a, j, n) ELSE a, sv, j - 1, n - 1) ELSE Cull(c, a, sv, j - 1, n)

Init == /\ pos \in [Obj -> {2 * x : x \in 0..L}]
        /\ cen \in [1..K -> 0..(2 * L)]
        /\ pen \in (IF Alt THEN [1..K -> Pen] ELSE {[k \in 1..K |-> 0]})
        /\ \E c \in Cells(Obj) : stack = <<[cell |-> c, n |-> K]>>
        /\ cand = [k \in 1..K |-> k]
        /\ label = [i \in Obj |-> 0]
Visit == /\ stack # << >>
         /\ LET top == stack[1]
                c == top.cell
                p1 == Closest(c, cand, [k \in 1..K |-> Sq(c.c - cen[cand[1]])], 2, top.n, Sq(c.c - cen[cand[1]]) + pen[cand[1]])
                p2 == Cull(c, p1.a, p1.sv, top.n, top.n)
            IN /\ cand' = p2.a
               /\ IF p2.n = 1 \/ c.s = 0
                  THEN /\ label' = [i \in Obj |-> IF i \in c.o THEN p2.a[1] ELSE label[i]]
                       /\ stack' = Tail(stack)
                  ELSE /\ UNCHANGED label
                       /\ \E A \in Halves(c.o) : \E x \in Cells(A), y \in Cells(c.o \ A) :
                            stack' = <<[cell |-> x, n |-> p2.n], [cell |-> y, n |-> p2.n]>> \o Tail(stack)
         /\ UNCHANGED <<pos, cen, pen>>
Next == Visit
Spec == Init /\ [][Next]_vars

Nearest == stack = << >> => \A i \in Obj : label[i] # 0 /\ \A k \in 1..K : Dist(i, label[i]) <= Dist(i, k)
\* the candidates stay a permutation, and every center that can still be closest stays within the first n
Kept == /\ {cand[k] : k \in 1..K} = 1..K
        /\ \A q \in 1..Len(stack) : \A i \in stack[q].cell.o :
             \E k \in 1..stack[q].n : \A m \in 1..K : Dist(i, cand[k]) <= Dist(i, m)
=============================================================================
