------------------------------ MODULE SlopWalk ------------------------------
(* Why bin_slop bounds the error of every pair: the test by which a pair of   *)
(* cells is put into one bin as a whole (linear bins of width BS, slop B, all *)
(* in half units), task by task: a task is a pair of cells, or one cell whose *)
(* pairs are all looked for.  What a task owes are the pairs of its objects.  *)
(* Accepting puts all of them in the bin of the centers, or nowhere if the    *)
(* centers are out of range.  Objects on a line; trees arbitrary.             *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS N, L, MINS, NB, BS, B, Bad

Obj == 1..N
VARIABLES pos, task
vars == <<pos, task>>

Abs(x) == IF x < 0 THEN -x ELSE x
Min(x, y) == IF x < y THEN x ELSE y
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
MaxOf(S) == CHOOSE x \in S : \A y \in S : x >= y
MAXS == MINS + NB * BS

Centers(S) == LET P == {pos[i] : i \in S} IN (2 * MinOf(P))..(2 * MaxOf(P))
Cell(S, c) == [o |-> S, c |-> c, s |-> MaxOf({Abs(2 * pos[i] - c) : i \in S})]
Cells(S) == {Cell(S, c) : c \in Centers(S)}
Halves(S) == {<<A, S \ A>> : A \in {X \in SUBSET S : X # {} /\ X # S /\ MinOf(S) \in X}}
Sep(i, j) == 2 * Abs(pos[i] - pos[j])                   \* (half units)

\* a task: one cell (a = b) or two
Owed(t) == IF t.k = 1 THEN {{i, j} : <<i, j>> \in {x \in t.a.o \X t.a.o : x[1] # x[2]}}
           ELSE {{i, j} : <<i, j>> \in t.a.o \X t.b.o}
SepOf(q) == LET i == MinOf(q) j == MaxOf(q) IN Sep(i, j)

D == Abs(task.a.c - task.b.c)
SS == task.a.s + task.b.s
Drop == IF task.k = 1 THEN task.a.s = 0 \/ 2 * task.a.s < MINS
        ELSE D + SS < MINS \/ D - SS >= MAXS
\* the test for a single bin: fits within the slop, or fits in the bin where the center is
Fits == /\ task.k = 2
        /\ \/ SS <= B
           \/ /\ 2 * SS <= BS + B
              \* (the position within the bin; the implementation truncates towards 0, and below MINS nothing is counted)
              /\ LET x == IF D >= MINS THEN (D - MINS) % BS ELSE -((MINS - D) % BS)
                     f == Min(x, BS - x)
                 IN SS <= f + (IF Bad = "twice" THEN 2 * B ELSE B)
InRange == D >= MINS /\ D < MAXS
BinAt == (D - MINS) \div BS                              \* 0..NB-1

Init == /\ pos \in {p \in [Obj -> 0..L] : \A i \in 1..(N - 1) : p[i] <= p[i + 1]}
        /\ task = [k |-> 0]
Start == /\ task.k = 0
         /\ \/ \E c \in Cells(Obj) : task' = [k |-> 1, a |-> c, b |-> c]
            \/ \E h \in Halves(Obj) : \E a \in Cells(h[1]), b \in Cells(h[2]) : task' = [k |-> 2, a |-> a, b |-> b]
         /\ UNCHANGED pos
Open == task.k # 0 /\ ~Drop /\ ~Fits
Within == /\ Open /\ task.k = 1
          /\ \E h \in Halves(task.a.o) :
               \/ \E i \in 1..2 : \E c \in Cells(h[i]) : task' = [k |-> 1, a |-> c, b |-> c]
               \/ \E a \in Cells(h[1]), b \in Cells(h[2]) : task' = [k |-> 2, a |-> a, b |-> b]
          /\ UNCHANGED pos
Between == /\ Open /\ task.k = 2
           /\ \/ task.a.s > 0 /\ \E h \in Halves(task.a.o) : \E i \in 1..2 : \E c \in Cells(h[i]) : task' = [task EXCEPT !.a = c]
              \/ task.b.s > 0 /\ \E h \in Halves(task.b.o) : \E i \in 1..2 : \E c \in Cells(h[i]) : task' = [task EXCEPT !.b = c]
           /\ UNCHANGED pos
Next == Start \/ Within \/ Between

\* what bin_slop promises: dropped pairs are out of range; a pair put in a bin belongs there but for the slop;
\* a pair left out because the centers are out of range is out of range but for the slop
DropsNothing == (task.k # 0 /\ Drop) => \A q \in Owed(task) : SepOf(q) < MINS \/ SepOf(q) >= MAXS
WithinSlop == (task.k # 0 /\ ~Drop /\ Fits) =>
  IF InRange THEN \A q \in Owed(task) : SepOf(q) >= MINS + BinAt * BS - B /\ SepOf(q) <= MINS + (BinAt + 1) * BS + B
  ELSE \A q \in Owed(task) : SepOf(q) <= MINS + B \/ SepOf(q) >= MAXS - B
\* and nothing is left in the middle: a task that is neither dropped nor accepted can be divided, and then nothing is lost
CanDivide == Open => SS > 0
=============================================================================
