------------------------------ MODULE LruLinks ------------------------------
(* The doubly linked ring the implementation keeps, one slot per capacity     *)
(* plus a root; empty slots carry a key of their own.  It refines LruCache.   *)
EXTENDS Naturals, Sequences, FiniteSets
CONSTANTS Keys, Caps, Nodes
VARIABLES root, nxt, prv, key, dict, acap     \* dict: key -> node
lvars == <<root, nxt, prv, key, dict, acap>>

None == 0
Empty(n) == 100 + n                      \* the private key of an unused slot
IsEmpty(k) == k > 99
MinFree(used) == CHOOSE n \in Nodes \ used : \A m \in Nodes \ used : n <= m
Used == {root} \cup {dict[k] : k \in DOMAIN dict}
Drop(f, x) == [y \in DOMAIN f \ {x} |-> f[y]]
Put(f, x, v) == [y \in DOMAIN f \cup {x} |-> IF y = x THEN v ELSE f[y]]

\* ring of c empty slots behind the root (node 1)
Ring(c) == /\ root = 1
           /\ nxt = [n \in 1..(c + 1) |-> IF n = c + 1 THEN 1 ELSE n + 1]
           /\ prv = [n \in 1..(c + 1) |-> IF n = 1 THEN c + 1 ELSE n - 1]
           /\ key = [n \in 1..(c + 1) |-> IF n = 1 THEN None ELSE Empty(n)]
           /\ dict = [k \in {Empty(n) : n \in 2..(c + 1)} |-> k - 100]
           /\ acap = c
LInit == \E c \in Caps : Ring(c)

GetHit(k) ==
  /\ k \in DOMAIN dict
  /\ LET n == dict[k] p == prv[n] q == nxt[n]
         nx1 == Put(nxt, p, q) pv1 == Put(prv, q, p)
         last == pv1[root]
     IN /\ nxt' = Put(Put(nx1, last, n), n, root)
        /\ prv' = Put(Put(pv1, root, n), n, last)
  /\ UNCHANGED <<root, key, dict, acap>>
GetMiss(k) ==
  /\ k \notin DOMAIN dict
  /\ LET r1 == nxt[root]
         oldkey == IF r1 = root THEN k ELSE key[r1]
     IN /\ root' = r1
        /\ key' = Put(Put(key, root, k), r1, None)
        /\ dict' = Drop(Put(dict, k, root), oldkey)
  /\ UNCHANGED <<nxt, prv, acap>>
Shrink1(s) ==    \* s = [n, p, d]: ring without the slot after the root
  LET victim == s.n[root] after == s.n[victim]
  IN [n |-> Drop(Put(s.n, root, after), victim), p |-> Drop(Put(s.p, after, root), victim),
      d |-> Drop(s.d, s.k[victim]), k |-> Drop(s.k, victim)]
Grow1(s) ==
  LET f == MinFree({root} \cup {s.d[x] : x \in DOMAIN s.d})
      first == s.n[root]
  IN [n |-> Put(Put(s.n, f, first), root, f), p |-> Put(Put(s.p, f, root), first, f),
      d |-> Put(s.d, Empty(f), f), k |-> Put(s.k, f, Empty(f))]
RECURSIVE Times(_, _, _)
Times(Op(_), s, n) == IF n = 0 THEN s ELSE Times(Op, Op(s), n - 1)
LResize(n) ==
  /\ LET s == [n |-> nxt, p |-> prv, d |-> dict, k |-> key]
         t == IF n < acap THEN Times(Shrink1, s, acap - n) ELSE Times(Grow1, s, n - acap)
     IN nxt' = t.n /\ prv' = t.p /\ dict' = t.d /\ key' = t.k
  /\ acap' = n /\ root' = root
LClear == /\ root' = 1
          /\ LET c == acap
             IN /\ nxt' = [n \in 1..(c + 1) |-> IF n = c + 1 THEN 1 ELSE n + 1]
                /\ prv' = [n \in 1..(c + 1) |-> IF n = 1 THEN c + 1 ELSE n - 1]
                /\ key' = [n \in 1..(c + 1) |-> IF n = 1 THEN None ELSE Empty(n)]
                /\ dict' = [k \in {Empty(n) : n \in 2..(c + 1)} |-> k - 100]
          /\ acap' = acap
LNext == (\E k \in Keys : GetHit(k) \/ GetMiss(k)) \/ (\E n \in Caps : LResize(n)) \/ LClear
LSpec == LInit /\ [][LNext]_lvars

RECURSIVE Walk(_, _)
Walk(n, left) == IF n = root \/ left = 0 THEN << >> ELSE <<n>> \o Walk(nxt[n], left - 1)
Chain == Walk(nxt[root], Cardinality(Nodes) + 1)
RingOK == /\ \A n \in DOMAIN nxt : prv[nxt[n]] = n /\ nxt[prv[n]] = n
          /\ Len(Chain) = acap
          /\ \A i \in 1..Len(Chain) : dict[key[Chain[i]]] = Chain[i]
          /\ Cardinality(DOMAIN dict) = acap
\* refinement: the non-empty keys along the ring, oldest first
Held == SelectSeq([i \in 1..Len(Chain) |-> key[Chain[i]]], LAMBDA k : ~IsEmpty(k))
Abs == INSTANCE LruCache WITH cap <- acap, seq <- Held
Refines == Abs!Spec
=============================================================================
