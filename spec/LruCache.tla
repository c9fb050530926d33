------------------------------ MODULE LruCache ------------------------------
(* The cache of fields (treecorr.util.LRU_Cache): at most cap results, the    *)
(* least recently used dropped first, resizable at any time.                  *)
EXTENDS Naturals, Sequences, FiniteSets
CONSTANTS Keys, Caps
VARIABLES cap, seq          \* seq: keys held, least recently used first

HasKey(s, k) == \E i \in 1..Len(s) : s[i] = k
Without(s, k) == SelectSeq(s, LAMBDA x : x # k)
Keep(s, n) == IF Len(s) <= n THEN s ELSE SubSeq(s, Len(s) - n + 1, Len(s))
Use(s, n, k) == IF HasKey(s, k) THEN Append(Without(s, k), k) ELSE Keep(Append(s, k), n)

AInit(c) == cap = c /\ seq = << >>
Get(k) == seq' = Use(seq, cap, k) /\ cap' = cap
Resize(n) == cap' = n /\ seq' = Keep(seq, n)
Clear == seq' = << >> /\ cap' = cap
Init == \E c \in Caps : AInit(c)
Next == (\E k \in Keys : Get(k)) \/ (\E n \in Caps : Resize(n)) \/ Clear
Spec == Init /\ [][Next]_<<cap, seq>>
\* what users rely on
Bounded == Len(seq) <= cap
Once == \A i, j \in 1..Len(seq) : i # j => seq[i] # seq[j]
\* the most recently used cap keys are the ones held: never drop a key more recent than one kept
MostRecent == [][\A k \in Keys : (HasKey(seq, k) /\ ~HasKey(seq', k)) =>
                   \A i \in 1..Len(seq) : HasKey(seq', seq[i]) =>
                        (\E a \in 1..Len(seq) : seq[a] = k /\ a < i)]_<<cap, seq>>
=============================================================================
