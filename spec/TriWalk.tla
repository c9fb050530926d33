------------------------------ MODULE TriWalk ------------------------------
(* How the implementation finds the triangles: a walk over one cell (all     *)
(* three objects in it), two cells (one object in the first, two in the      *)
(* second) or three cells.  Tasks are dropped when no triangle in them can   *)
(* be in range, and split otherwise until all three cells are single points. *)
(* The walk is described task by task: the triangles a task owes are the     *)
(* ones that nobody else is going to count, so the walk is right when every  *)
(* dropped task owes none in range, the children of a task owe together what *)
(* their parent owed, each triangle once, and the final tasks count the      *)
(* triangles they owe.  (Induction over the walk gives the sums.)            *)
(* Positions are points of a grid, distances are Chebyshev's: all bounds     *)
(* used are consequences of the triangle inequality.  Trees are arbitrary:   *)
(* every division of a cell, every center in the box around its objects.     *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS N, LX, LY,            \* objects, grid 0..LX by 0..LY
          MINS, MAXS,           \* range of the separations
          UD, MINU, MAXU,       \* u in [MINU/UD, MAXU/UD]
          VD, MINV, MAXV,       \* |v| in [MINV/VD, MAXV/VD]
          Mode,                 \* "ruv": sorted sides; "sas": the two sides at a vertex
          Orders,               \* subset of {0, 1, 3}: which objects are exchangeable (none fixed 0, the first fixed 1, all fixed 3)
          Bad                   \* (a mistake, to show that the model can fail)

Obj == 1..N
VARIABLES pos, task
vars == <<pos, task>>

Abs(x) == IF x < 0 THEN -x ELSE x
Max(x, y) == IF x > y THEN x ELSE y
Min(x, y) == IF x < y THEN x ELSE y
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
MaxOf(S) == CHOOSE x \in S : \A y \in S : x >= y
Dist(p, q) == Max(Abs(p[1] - q[1]), Abs(p[2] - q[2]))
Twice(p) == <<2 * p[1], 2 * p[2]>>

(* ---- the definition: which triangles are in range (sides opposite objects a, b, c) ---- *)
D(i, j) == Dist(pos[i], pos[j])
RuvInRange(d1, d2, d3) ==
  /\ d3 > 0 /\ d2 >= MINS /\ d2 < MAXS
  /\ UD * d3 >= MINU * d2 /\ UD * d3 <= MAXU * d2
  /\ VD * (d1 - d2) >= MINV * d3 /\ VD * (d1 - d2) <= MAXV * d3
Sorted(d1, d2, d3) == d1 >= d2 /\ d2 >= d3
\* with all objects fixed; the first fixed; none fixed
In3(a, b, c) == LET d1 == D(b, c) d2 == D(a, c) d3 == D(a, b)
                IN IF Mode = "ruv" THEN Sorted(d1, d2, d3) /\ RuvInRange(d1, d2, d3)
                   ELSE d1 > 0 /\ d2 >= MINS /\ d2 < MAXS /\ d3 >= MINS /\ d3 < MAXS

\* a triangle owed: what identifies it in each order.  sas counts a triangle once for each vertex it may have
Owed(o, a, b, c) ==
  IF o = 3 THEN (IF In3(a, b, c) THEN {<<a, b, c>>} ELSE {})
  ELSE IF o = 1 THEN (IF In3(a, b, c) \/ In3(a, c, b) THEN {<<a, {b, c}>>} ELSE {})
  ELSE IF Mode = "ruv" THEN (IF \E x \in {<<a,b,c>>, <<a,c,b>>, <<b,a,c>>, <<b,c,a>>, <<c,a,b>>, <<c,b,a>>} : In3(x[1], x[2], x[3])
                             THEN {{a, b, c}} ELSE {})
  ELSE {<<v, {a, b, c} \ {v}>> : v \in {w \in {a, b, c} : LET r == {a, b, c} \ {w} IN \E x \in r, y \in r : x # y /\ In3(w, x, y)}}

(* ---- cells and tasks ---- *)
Points(S) == {pos[i] : i \in S}
Centers(S) == LET P == Points(S) X == {p[1] : p \in P} Y == {p[2] : p \in P}
              IN ((2 * MinOf(X))..(2 * MaxOf(X))) \X ((2 * MinOf(Y))..(2 * MaxOf(Y)))
Cell(S, c) == [o |-> S, c |-> c, s |-> MaxOf({Dist(Twice(p), c) : p \in Points(S)})]
Cells(S) == {Cell(S, c) : c \in Centers(S)}
Halves(S) == {<<A, S \ A>> : A \in (SUBSET S) \ {{}, S}}

\* tasks without geometry: kind, order, sets of objects
T1(S) == [k |-> 1, o |-> 0, s |-> <<S>>]
T12(o, A, B) == [k |-> 2, o |-> o, s |-> <<A, B>>]
T111(o, A, B, C) == [k |-> 3, o |-> o, s |-> <<A, B, C>>]
OwedBy(t) ==
  CASE t.k = 1 -> UNION {Owed(0, x[1], x[2], x[3]) : x \in {y \in t.s[1] \X t.s[1] \X t.s[1] : y[1] < y[2] /\ y[2] < y[3]}}
    [] t.k = 2 -> UNION {Owed(t.o, x[1], x[2], x[3]) : x \in {y \in t.s[1] \X t.s[2] \X t.s[2] : y[2] < y[3]}}
    [] t.k = 3 -> UNION {Owed(t.o, x[1], x[2], x[3]) : x \in t.s[1] \X t.s[2] \X t.s[3]}

\* the same with cells
Geo(t) == {[k |-> t.k, o |-> t.o, c |-> x] : x \in
             IF t.k = 1 THEN {<<a>> : a \in Cells(t.s[1])}
             ELSE IF t.k = 2 THEN Cells(t.s[1]) \X Cells(t.s[2])
             ELSE Cells(t.s[1]) \X Cells(t.s[2]) \X Cells(t.s[3])}
Flat(g) == [k |-> g.k, o |-> g.o, s |-> [i \in 1..Len(g.c) |-> g.c[i].o]]

(* ---- what the implementation tests (everything in half units: centers and sizes are doubled) ---- *)
Drop1(g) == g.c[1].s = 0 \/ 2 * g.c[1].s < 2 * MINS
TooSmallS2(s) == s = 0 \/ (IF Mode = "ruv" THEN UD * 2 * s < 2 * MINS * MINU ELSE FALSE)
Drop12(g) ==
  LET s1 == g.c[1].s s2 == g.c[2].s r == Dist(g.c[1].c, g.c[2].c)
  IN \/ TooSmallS2(s2)
     \/ r + s1 + s2 < 2 * MINS
     \/ r - s1 - s2 >= 2 * MAXS
     \/ Mode = "ruv" /\ r > s1 + s2 /\ MINU * r > UD * 2 * s2 + MINU * (s1 + s2)

\* three cells: first into the order of the sides of their centers
Swap(c, i, j) == [c EXCEPT ![i] = c[j], ![j] = c[i]]
Sides(c) == <<Dist(c[2].c, c[3].c), Dist(c[1].c, c[3].c), Dist(c[1].c, c[2].c)>>
CCW(p, q, r) == (q[1] - p[1]) * (r[2] - p[2]) - (q[2] - p[2]) * (r[1] - p[1]) > 0
Sort3(c) == LET d == Sides(c)
  IN IF d[1] > d[2]
     THEN IF d[2] > d[3] THEN c ELSE IF d[1] > d[3] THEN <<c[1], c[3], c[2]>> ELSE <<c[3], c[1], c[2]>>
     ELSE IF d[1] > d[3] THEN <<c[2], c[1], c[3]>> ELSE IF d[2] > d[3] THEN <<c[2], c[3], c[1]>> ELSE <<c[3], c[2], c[1]>>
Sort2(c) == LET d == Sides(c) IN IF d[2] > d[3] THEN c ELSE <<c[1], c[3], c[2]>>
\* the sorted tasks that a task of three cells becomes
Arranged(g) ==
  LET R(o, c) == [k |-> 4, o |-> o, c |-> c] c == g.c
      w == CCW(c[1].c, c[3].c, c[2].c)
  IN IF Mode = "ruv" THEN (IF g.o = 0 THEN <<R(0, Sort3(c))>> ELSE IF g.o = 1 THEN <<R(1, Sort2(c))>> ELSE <<R(3, c)>>)
     ELSE IF g.o = 0 THEN (IF w THEN <<R(1, c), R(1, <<c[3], c[1], c[2]>>), R(1, <<c[2], c[3], c[1]>>)>>
                           ELSE <<R(1, <<c[1], c[3], c[2]>>), R(1, <<c[2], c[1], c[3]>>), R(1, <<c[3], c[2], c[1]>>)>>)
     ELSE IF g.o = 1 THEN (IF w THEN <<R(1, c)>> ELSE <<R(1, <<c[1], c[3], c[2]>>)>>)
     ELSE <<R(3, c)>>

StopRuv(g) ==
  LET d == Sides(g.c) d1 == d[1] d2 == d[2] d3 == d[3] s1 == g.c[1].s s2 == g.c[2].s s3 == g.c[3].s
      sums == s1 + s2 + 2 * s3
  IN \/ d2 + s1 + s3 < 2 * MINS /\ d3 + s1 + s2 < 2 * MINS
     \/ d2 - s1 - s3 >= 2 * MAXS /\ (Bad = "middle" \/ d1 - s2 - s3 >= 2 * MAXS)
     \/ g.o = 3 /\ d3 > d2 + 2 * s1 + s2 + s3
     \/ g.o > 0 /\ d1 < d2 - (s1 + s2 + 2 * s3)
     \/ g.o > 0 /\ d3 > d1 + s1 + 2 * s2 + s3
     \/ /\ MINU > 0 /\ d2 > s1 + s3 /\ UD * (d3 + s1 + s2) < MINU * (d2 - s1 - s3)
        /\ (Bad = "minu" \/ (d1 > s2 + s3 /\ UD * (d3 + s1 + s2) < MINU * (d1 - s2 - s3)))
     \/ /\ MAXU < UD /\ UD * (d3 - s1 - s2) > MAXU * (d2 + s1 + s3)
        \* neither of the other sides can become the smallest
        /\ d3 - s1 - s2 <= d2 - s1 - s3 /\ d3 - s1 - s2 <= d1 - s2 - s3
     \/ MAXV < VD /\ VD * (d1 - d2 - sums) > MAXV * (d2 + s1 + s2)
     \/ MINV > 0 /\ d3 > s1 + s2 /\ MINV * (d3 - s1 - s2) > VD * (d1 - d2 + sums)
     \/ s2 = 0 /\ s3 = 0 /\ d1 = 0
     \/ s1 = 0 /\ s3 = 0 /\ d2 = 0
     \/ s1 = 0 /\ s2 = 0 /\ d3 = 0
StopSas(g) ==
  LET d == Sides(g.c) d1 == d[1] d2 == d[2] d3 == d[3] s1 == g.c[1].s s2 == g.c[2].s s3 == g.c[3].s
  IN \/ d2 + s1 + s3 < 2 * MINS
     \/ (IF Bad = "edge" THEN d3 <= 2 * MINS ELSE d3 + s1 + s2 < 2 * MINS)
     \/ d2 - s1 - s3 >= 2 * MAXS
     \/ d3 - s1 - s2 >= 2 * MAXS
     \/ s2 = 0 /\ s3 = 0 /\ d1 = 0
     \/ s1 = 0 /\ s3 = 0 /\ d2 = 0
     \/ s1 = 0 /\ s2 = 0 /\ d3 = 0
Drop(g) == CASE g.k = 1 -> Drop1(g) [] g.k = 2 -> Drop12(g) [] g.k = 3 -> FALSE
             [] g.k = 4 -> IF Mode = "ruv" THEN StopRuv(g) ELSE StopSas(g)
Final(g) == g.k = 4 /\ \A i \in 1..3 : g.c[i].s = 0

\* a task of kind 4 owes what the same cells owe in its order
Debt(g) == OwedBy([k |-> IF g.k = 4 THEN 3 ELSE g.k, o |-> g.o, s |-> [i \in 1..Len(g.c) |-> g.c[i].o]])

(* ---- the children of a task ---- *)
\* as sequences of tasks without geometry, one for every way of dividing
Splits(g) ==
  LET s == Flat(g).s
  IN CASE g.k = 1 -> {<<T1(h[1]), T1(h[2]), T12(0, h[1], h[2]), T12(0, h[2], h[1])>> : h \in Halves(s[1])}
       [] g.k = 2 -> IF g.c[1].s > g.c[2].s
                     THEN {<<T12(g.o, h[1], l[1]), T12(g.o, h[1], l[2]), T12(g.o, h[2], l[1]), T12(g.o, h[2], l[2]),
                             T111(g.o, h[1], l[1], l[2]), T111(g.o, h[2], l[1], l[2])>> : h \in Halves(s[1]), l \in Halves(s[2])}
                     ELSE {<<T12(g.o, s[1], l[1]), T12(g.o, s[1], l[2]), T111(g.o, s[1], l[1], l[2])>> : l \in Halves(s[2])}
       [] g.k = 4 -> \* any one of the cells that can be divided (dividing several is dividing one after the other)
                     UNION {{<<T111(g.o, IF i = 1 THEN h[1] ELSE s[1], IF i = 2 THEN h[1] ELSE s[2], IF i = 3 THEN h[1] ELSE s[3]),
                               T111(g.o, IF i = 1 THEN h[2] ELSE s[1], IF i = 2 THEN h[2] ELSE s[2], IF i = 3 THEN h[2] ELSE s[3])>>
                               : h \in Halves(s[i])} : i \in {j \in 1..3 : g.c[j].s > 0}}

(* ---- the machine ---- *)
Less(p, q) == p[1] < q[1] \/ (p[1] = q[1] /\ p[2] <= q[2])
Grid == (0..LX) \X (0..LY)
\* where the walk starts: one set; two or three sets in cross-correlations; several top-level cells
Tops == {T1(Obj)}
  \cup {T12(o, A, Obj \ A) : o \in Orders \ {3}, A \in (SUBSET Obj) \ {{}, Obj}}
  \cup {T111(o, A[1], A[2], Obj \ (A[1] \cup A[2])) : o \in Orders,
          A \in {x \in (SUBSET Obj) \X (SUBSET Obj) : x[1] # {} /\ x[2] # {} /\ x[1] \cap x[2] = {} /\ x[1] \cup x[2] # Obj}}
Init == /\ pos \in {p \in [Obj -> Grid] : \A i \in 1..(N - 1) : Less(p[i], p[i + 1])}
        /\ task = [k |-> 0]
Start == /\ task.k = 0 /\ \E t \in {x \in Tops : x.k # 1 \/ 0 \in Orders} : task' \in Geo(t)
         /\ UNCHANGED pos
Arrange == /\ task.k = 3 /\ \E i \in 1..Len(Arranged(task)) : task' = Arranged(task)[i]
           /\ UNCHANGED pos
\* follow one of the children
Divide(k) == /\ task.k = k /\ ~Drop(task) /\ ~Final(task)
             /\ \E s \in Splits(task) : \E i \in 1..Len(s) : task' \in Geo(s[i])
             /\ UNCHANGED pos
Next == Start \/ Arrange \/ \E k \in {1, 2, 4} : Divide(k)

(* ---- what has to hold ---- *)
DropsNothing == task.k > 0 /\ Drop(task) => Debt(task) = {}
Parted(D0, kids) == /\ UNION {kids[i] : i \in 1..Len(kids)} = D0
                    /\ \A i, j \in 1..Len(kids) : i # j => kids[i] \cap kids[j] = {}
SplitsRight == (task.k \in {1, 2, 4} /\ ~Drop(task) /\ ~Final(task)) =>
                 /\ Splits(task) # {}
                 /\ \A s \in Splits(task) : Parted(Debt(task), [i \in 1..Len(s) |-> OwedBy(s[i])])
ArrangedRight == task.k = 3 => Parted(Debt(task), [i \in 1..Len(Arranged(task)) |-> Debt(Arranged(task)[i])])
\* at the end the triangle is counted with the sides in the order of the cells: they have to be the right ones
FinalRight == (task.k = 4 /\ Final(task) /\ ~Drop(task)) =>
                \A a \in task.c[1].o, b \in task.c[2].o, c \in task.c[3].o :
                  Mode = "ruv" => (Owed(task.o, a, b, c) # {} <=> In3(a, b, c))
=============================================================================
