------------------------------ MODULE NearWalk ------------------------------
(* How the implementation finds the objects near a point: it goes through the *)
(* top-level cells and down each tree, leaving out cells that are entirely    *)
(* too far, taking whole cells that are entirely near enough, and splitting   *)
(* the others; a cell of no extent is taken or left as its position says.     *)
(* Positions are points of a grid (Chebyshev distances; half units for the    *)
(* centers of cells and for the query, which can be anywhere).  Trees are     *)
(* arbitrary: every division and every center in the box around the objects.  *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS N, LX, LY, MAXSEP, Bad

Obj == 1..N
VARIABLES pos, query, sep, stack, got, count
vars == <<pos, query, sep, stack, got, count>>

Abs(x) == IF x < 0 THEN -x ELSE x
Max(x, y) == IF x > y THEN x ELSE y
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
MaxOf(S) == CHOOSE x \in S : \A y \in S : x >= y
Dist(p, q) == Max(Abs(p[1] - q[1]), Abs(p[2] - q[2]))
Twice(p) == <<2 * p[1], 2 * p[2]>>
Less(p, q) == p[1] < q[1] \/ (p[1] = q[1] /\ p[2] <= q[2])

\* what is wanted
Near == {i \in Obj : Dist(Twice(pos[i]), query) <= sep}

Points(S) == {pos[i] : i \in S}
Centers(S) == LET X == {p[1] : p \in Points(S)} Y == {p[2] : p \in Points(S)}
              IN ((2 * MinOf(X))..(2 * MaxOf(X))) \X ((2 * MinOf(Y))..(2 * MaxOf(Y)))
Cell(S, c) == [o |-> S, c |-> c, s |-> MaxOf({Dist(Twice(p), c) : p \in Points(S)})]
Cells(S) == {Cell(S, c) : c \in Centers(S)}
\* (divisions up to the order of the halves)
Halves(S) == {<<A, S \ A>> : A \in {B \in SUBSET S : B # {} /\ B # S /\ MinOf(S) \in B}}

Init == /\ pos \in {p \in [Obj -> (0..LX) \X (0..LY)] : \A i \in 1..(N - 1) : Less(p[i], p[i + 1])}
        /\ query \in ((-1)..(2 * LX + 2)) \X (0..(2 * LY))
        /\ sep \in 1..MAXSEP
        /\ \/ \E c \in Cells(Obj) : stack = <<c>>                                         \* one top-level cell, or two
           \/ \E h \in Halves(Obj) : \E a \in Cells(h[1]), b \in Cells(h[2]) : stack = <<a, b>>
        /\ got = {} /\ count = 0

Top == Head(stack)
D == Dist(Top.c, query)
TooFar == IF Bad = "size" THEN D > sep ELSE D > sep + Top.s
AllNear == IF Bad = "half" THEN D <= sep ELSE D <= sep - Top.s
Busy == stack # << >>
Point == /\ Busy /\ Top.s = 0 /\ D <= sep
         /\ got' = got \cup Top.o /\ count' = count + Cardinality(Top.o)
         /\ stack' = Tail(stack) /\ UNCHANGED <<pos, query, sep>>
Skip == /\ Busy /\ (IF Top.s = 0 THEN D > sep ELSE TooFar)
        /\ stack' = Tail(stack) /\ UNCHANGED <<pos, query, sep, got, count>>
Whole == /\ Busy /\ Top.s > 0 /\ ~TooFar /\ AllNear
         /\ got' = got \cup Top.o /\ count' = count + Cardinality(Top.o)
         /\ stack' = Tail(stack) /\ UNCHANGED <<pos, query, sep>>
Split == /\ Busy /\ Top.s > 0 /\ ~TooFar /\ ~AllNear
         /\ \E h \in Halves(Top.o) : \E a \in Cells(h[1]), b \in Cells(h[2]) : stack' = <<a, b>> \o Tail(stack)
         /\ UNCHANGED <<pos, query, sep, got, count>>
Next == Point \/ Skip \/ Whole \/ Split

Owed == UNION {stack[i].o : i \in 1..Len(stack)}
\* at any time what has been found and what is still to be looked at contain all near objects, and nothing else was found
Covered == /\ Near \subseteq got \cup Owed /\ got \subseteq Near /\ got \cap Owed = {}
           /\ \A i, j \in 1..Len(stack) : i # j => stack[i].o \cap stack[j].o = {}
Exact == stack = << >> => (got = Near /\ count = Cardinality(Near))
\* (a cell that has to be split can be)
Splittable == (Busy /\ Top.s > 0) => Cardinality(Top.o) > 1
=============================================================================
