------------------------------ MODULE PairWalk ------------------------------
(* How the implementation finds the pairs: worker threads take top-level      *)
(* cells of the tree in turn, walk pairs of cells - dropping those out of     *)
(* range, accepting those that fit in one bin, splitting the rest - into a    *)
(* local accumulator, and merge it into the result under a lock.              *)
(* Positions are integers on a line (doubled coordinates for cell centers).   *)
(* The tree is arbitrary: whenever a cell is split, every division into two   *)
(* non-empty parts and every center within the extent of the cell is allowed, *)
(* which covers every split method, and so is every set of top-level cells.   *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS N,          \* number of objects
          L,          \* positions are in 0..L
          NT,         \* threads
          MINS, MAXS, BS,   \* separations in [MINS, MAXS), bins of width BS
          Auto,       \* TRUE: pairs within one set; FALSE: pairs between two sets (objects 1..M and M+1..N)
          Locked,     \* the merge is a critical section
          LeakDrop    \* (defect to show that the model can fail: drop when the centers are out of range)

Obj == 1..N
Threads == 1..NT
M == N \div 2
Side1 == IF Auto THEN Obj ELSE 1..M
Side2 == IF Auto THEN Obj ELSE (M + 1)..N
NB == (MAXS - MINS) \div BS

VARIABLES pos, top1, top2, next, stack, acc, out, pc, tmp, lock
vars == <<pos, top1, top2, next, stack, acc, out, pc, tmp, lock>>

Abs(x) == IF x < 0 THEN -x ELSE x
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
MaxOf(S) == CHOOSE x \in S : \A y \in S : x >= y
Zero == [b \in 1..NB |-> 0]

\* what has to come out: the definition
BinOf(d) == IF d < MINS \/ d >= MAXS \/ d = 0 THEN 0 ELSE 1 + ((d - MINS) \div BS)
Want(p) == [b \in 1..NB |->
  IF Auto THEN Cardinality({<<i, j>> \in Obj \X Obj : i < j /\ BinOf(Abs(p[i] - p[j])) = b})
  ELSE Cardinality({<<i, j>> \in Side1 \X Side2 : BinOf(Abs(p[i] - p[j])) = b})]

\* a cell: objects, doubled center, doubled size (no object is further from the center than the size)
Centers(S) == LET P == {pos[i] : i \in S} IN (2 * MinOf(P))..(2 * MaxOf(P))
Cell(S, c) == [o |-> S, c |-> c, s |-> MaxOf({Abs(2 * pos[i] - c) : i \in S})]
Cells(S) == {Cell(S, c) : c \in Centers(S)}
Halves(S) == {A \in SUBSET S : A # {} /\ A # S /\ MinOf(S) \in A}
SplitOf(c) == UNION {{<<x, y>> : x \in Cells(A), y \in Cells(c.o \ A)} : A \in Halves(c.o)}
\* any division into non-empty top-level cells (at most 3)
RECURSIVE Parts(_, _)
Parts(S, k) == IF k = 1 THEN {<<S>>}
  ELSE {<<S>>} \cup UNION {{<<A>> \o rest : rest \in Parts(S \ A, k - 1)} : A \in Halves(S)}

TopChoices(S) == Parts(S, 3)

Init == /\ pos \in [Obj -> 0..L]
        /\ top1 \in TopChoices(Side1)
        /\ top2 \in (IF Auto THEN {top1} ELSE TopChoices(Side2))
        /\ next = 1
        /\ stack = [t \in Threads |-> << >>]
        /\ acc = [t \in Threads |-> Zero]
        /\ out = Zero
        /\ pc = [t \in Threads |-> "work"]
        /\ tmp = [t \in Threads |-> Zero]
        /\ lock = 0

One(S) == Cell(S, (MinOf({2 * pos[i] : i \in S}) + MaxOf({2 * pos[i] : i \in S})) \div 2)

\* a thread takes the next top-level cell: pairs within it, and with all later (auto) or all (cross) cells
Take(t) == /\ pc[t] = "work" /\ stack[t] = << >> /\ next <= Len(top1)
           /\ LET js == IF Auto THEN [q \in 1..(Len(top1) - next) |-> next + q] ELSE [q \in 1..Len(top2) |-> q]
                  tasks == [q \in 1..Len(js) |-> [k |-> "pair", a |-> One(top1[next]), b |-> One(top2[js[q]])]]
                  own == IF Auto THEN <<[k |-> "self", a |-> One(top1[next]), b |-> One(top1[next])]>> ELSE << >>
              IN stack' = [stack EXCEPT ![t] = own \o tasks]
           /\ next' = next + 1
           /\ UNCHANGED <<pos, top1, top2, acc, out, pc, tmp, lock>>

Push(t, tasks) == stack' = [stack EXCEPT ![t] = tasks \o Tail(stack[t])]
Pair(a, b) == [k |-> "pair", a |-> a, b |-> b]
Same(a) == [k |-> "self", a |-> a, b |-> a]
Ready(t, kind) == pc[t] = "work" /\ stack[t] # << >> /\ Head(stack[t]).k = kind
Quiet == UNCHANGED <<pos, top1, top2, next, out, pc, tmp, lock>>

\* pairs within one cell (process2)
SelfDone(t) == /\ Ready(t, "self")
               /\ LET a == Head(stack[t]).a IN a.s = 0 \/ a.s < MINS    \* (2*s < 2*min: all separations too small)
               /\ Push(t, << >>) /\ UNCHANGED acc /\ Quiet
SelfSplit(t) == /\ Ready(t, "self")
                /\ LET a == Head(stack[t]).a
                   IN /\ a.s > 0 /\ Cardinality(a.o) > 1
                      /\ \E h \in SplitOf(a) : Push(t, <<Same(h[1]), Same(h[2]), Pair(h[1], h[2])>>)
                /\ UNCHANGED acc /\ Quiet

\* pairs between two cells (process11)
D(t) == LET h == Head(stack[t]) IN Abs(h.a.c - h.b.c)
SS(t) == LET h == Head(stack[t]) IN h.a.s + h.b.s
TooSmall(t) == D(t) + SS(t) < 2 * MINS
TooLarge(t) == IF LeakDrop THEN D(t) >= 2 * MAXS ELSE D(t) - SS(t) >= 2 * MAXS
Fits(t) == /\ D(t) - SS(t) >= 2 * MINS /\ D(t) + SS(t) < 2 * MAXS
           /\ (D(t) - SS(t) - 2 * MINS) \div (2 * BS) = (D(t) + SS(t) - 2 * MINS) \div (2 * BS)
Drop(t) == /\ Ready(t, "pair") /\ (TooSmall(t) \/ TooLarge(t))
           /\ Push(t, << >>) /\ UNCHANGED acc /\ Quiet
Accept(t) == /\ Ready(t, "pair") /\ ~TooSmall(t) /\ ~TooLarge(t) /\ Fits(t)
             /\ LET h == Head(stack[t]) b == 1 + ((D(t) - 2 * MINS) \div (2 * BS))
                IN acc' = [acc EXCEPT ![t][b] = @ + Cardinality(h.a.o) * Cardinality(h.b.o)]
             /\ Push(t, << >>) /\ Quiet
SplitPair(t) == /\ Ready(t, "pair") /\ ~TooSmall(t) /\ ~TooLarge(t) /\ ~Fits(t)
                /\ LET h == Head(stack[t])
                   IN \/ h.a.s > 0 /\ \E x \in SplitOf(h.a) : Push(t, <<Pair(x[1], h.b), Pair(x[2], h.b)>>)
                      \/ h.b.s > 0 /\ \E y \in SplitOf(h.b) : Push(t, <<Pair(h.a, y[1]), Pair(h.a, y[2])>>)
                /\ UNCHANGED acc /\ Quiet
\* merge into the shared result: read, then write back
Finish(t) == /\ pc[t] = "work" /\ stack[t] = << >> /\ next > Len(top1)
             /\ (~Locked \/ lock = 0)
             /\ pc' = [pc EXCEPT ![t] = "merge"] /\ lock' = (IF Locked THEN t ELSE lock)
             /\ tmp' = [tmp EXCEPT ![t] = out]
             /\ UNCHANGED <<pos, top1, top2, next, stack, acc, out>>
Merge(t) == /\ pc[t] = "merge"
            /\ out' = [b \in 1..NB |-> tmp[t][b] + acc[t][b]]
            /\ pc' = [pc EXCEPT ![t] = "done"] /\ lock' = (IF Locked THEN 0 ELSE lock)
            /\ UNCHANGED <<pos, top1, top2, next, stack, acc, tmp>>

Next == \E t \in Threads : \/ Take(t) \/ SelfDone(t) \/ SelfSplit(t) \/ Drop(t) \/ Accept(t) \/ SplitPair(t)
                           \/ Finish(t) \/ Merge(t)
Spec == Init /\ [][Next]_vars

Done == \A t \in Threads : pc[t] = "done"
\* every pair is counted exactly once, in its bin, when all threads are done
Exact == Done => out = Want(pos)
\* and no thread is ever stuck
Progress == Done \/ ENABLED Next
=============================================================================
