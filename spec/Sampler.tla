------------------------------ MODULE Sampler ------------------------------
(* The reservoir which sample_pairs fills while the tree walk hands it pairs  *)
(* of cells: a batch is an m1 by m2 grid of pairs, numbered in the order seen. *)
(* The state is the exact probability distribution of the N slots (weights are *)
(* whole numbers), so that uniformity is an invariant and not a statistic.     *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, FiniteSetsExt, Functions, SequencesExt, TLC

CONSTANTS N,        \* slots
          Grids,    \* possible batches: 10 * rows + columns
          MaxK,     \* pairs in all
          Variant   \* "code", or a broken rule

VARIABLES k, dist
vars == <<k, dist>>

\* a distribution is a function from slot contents (sequences) to weights
Add(d, s, w) == IF s \in DOMAIN d THEN [d EXCEPT ![s] = @ + w] ELSE d @@ (s :> w)
\* push every outcome of d through F: contents -> set of <<choice, new contents>> (equally likely)
Push(d, F(_)) == FoldSet(LAMBDA s, acc : FoldSet(LAMBDA c, a : Add(a, c[2], d[s]), acc, F(s)), << >>, DOMAIN d)

\* one pair at a time: pair number n (0-based) arrives
PassF(s, n) == IF n < N THEN {<<0, Append(s, n)>>}
               ELSE LET hi == IF Variant = "short_draw" THEN n - 1 ELSE n
                    IN {<<j, IF j < N THEN [s EXCEPT ![j + 1] = n] ELSE s>> : j \in 0..hi}
RECURSIVE Passes(_, _, _)
Passes(d, n, m) == IF m = 0 THEN d ELSE Passes(Push(d, LAMBDA s : PassF(s, n)), n + 1, m - 1)

\* N of the numbers 0..t-1 without replacement, in order
Draws(t) == {f \in [1..N -> 0..(t - 1)] : \A a, b \in 1..N : a # b => f[a] # f[b]}
\* "put old items back in their place": for slots k.. the drawn number must be new
RECURSIVE Fix(_, _, _)
Fix(sel, i, kk) == IF i > N THEN sel
                   ELSE IF sel[i] >= kk THEN Fix(sel, i + 1, kk)
                   ELSE LET j == sel[i] IN Fix([sel EXCEPT ![i] = sel[j + 1], ![j + 1] = sel[i]], i, kk)
\* walk the grid row by row, skipping rows which hold no drawn number
RECURSIVE Rows(_, _, _, _, _, _)
Rows(slots, sel, i, row, m1, m2) ==
  LET due == {sel[a] : a \in {a \in 1..N : sel[a] >= i}}      \* drawn numbers not yet met
  IN IF due = {} \/ row = m1 THEN slots
     ELSE LET next == CHOOSE x \in due : \A y \in due : x <= y
              skip == IF Variant = "skip_early" THEN next > i + m2 - 2 ELSE next > i + m2
          IN IF skip THEN Rows(slots, sel, i + m2, row + 1, m1, m2)
             ELSE Rows([a \in 1..N |-> IF sel[a] \in i..(i + m2 - 1) THEN sel[a] ELSE slots[a]], sel, i + m2, row + 1, m1, m2)
BulkF(s, m1, m2) ==
  LET pad == [a \in 1..N |-> IF a <= Len(s) THEN s[a] ELSE -1]
  IN {<<f, LET sel == Fix(f, k + 1, k)
           IN Rows(pad, [a \in 1..N |-> IF sel[a] >= k THEN sel[a] ELSE -1], k, 0, m1, m2)>> : f \in Draws(k + m1 * m2)}

Init == k = 0 /\ dist = (<< >> :> 1)
TakeAll(g) == LET m == g[1] * g[2] IN
  /\ k + m <= N
  /\ dist' = Push(dist, LAMBDA s : {<<0, s \o [i \in 1..m |-> k + i - 1]>>})
  /\ k' = k + m
OneByOne(g) == LET m == g[1] * g[2] IN
  /\ k + m > N /\ m <= N /\ k + m <= MaxK
  /\ dist' = Passes(dist, k, m)
  /\ k' = k + m
Bulk(g) == LET m == g[1] * g[2] IN
  /\ m > N /\ k + m <= MaxK
  /\ dist' = Push(dist, LAMBDA s : BulkF(s, g[1], g[2]))
  /\ k' = k + m
Next == \E x \in Grids : LET g == <<x \div 10, x % 10>> IN TakeAll(g) \/ OneByOne(g) \/ Bulk(g)
Spec == Init /\ [][Next]_vars

Size == IF k < N THEN k ELSE N
\* every outcome: the right number of pairs, all seen, none twice
Distinct == \A s \in DOMAIN dist : /\ Len(s) = Size
                                   /\ \A a \in 1..Len(s) : s[a] \in 0..(k - 1)
                                   /\ Cardinality({s[a] : a \in 1..Len(s)}) = Len(s)
\* every set of pairs is equally likely
Content(s) == {s[a] : a \in 1..Len(s)}
SetWeight(S) == FoldSet(LAMBDA s, acc : acc + dist[s], 0, {s \in DOMAIN dist : Content(s) = S})
Uniform == LET all == kSubset(Size, 0..(k - 1))
           IN \A S, T \in all : SetWeight(S) = SetWeight(T)
=============================================================================
