------------------------------ MODULE FieldOut ------------------------------
(* Histories of field requests and cache operations on catalogs (and of the   *)
(* bare cache), judged against LruCache: abstract state s maps a cache name   *)
(* to [cap, seq], seq holding [key, tok] with tok the identity of the result. *)
EXTENDS FP, Integers, FiniteSets, StateTrace

HasK(q, k) == \E i \in 1..Len(q) : q[i].key = k
Tok(q, k) == q[CHOOSE i \in 1..Len(q) : q[i].key = k].tok
KeepN(q, n) == IF Len(q) <= n THEN q ELSE SubSeq(q, Len(q) - n + 1, Len(q))
UseK(c, k, t) == IF HasK(c.seq, k)
                 THEN [c EXCEPT !.seq = Append(SelectSeq(c.seq, LAMBDA x : x.key # k), [key |-> k, tok |-> Tok(c.seq, k)])]
                 ELSE [c EXCEPT !.seq = KeepN(Append(c.seq, [key |-> k, tok |-> t]), c.cap)]
Of(s, n) == IF n \in DOMAIN s THEN s[n] ELSE [cap |-> 1, seq |-> << >>]
Set(s, n, c) == [m \in DOMAIN s \cup {n} |-> IF m = n THEN c ELSE s[m]]
Names(r) == {r.names[i] : i \in 1..Len(r.names)}

CStart(r) == IF r.op = "new" THEN [m \in {r.name} |-> [cap |-> r.n, seq |-> << >>]] ELSE [m \in {} |-> 0]
CAfter(s, r) ==
  CASE r.err # "" -> s
    [] r.op = "get" -> Set(s, r.name, UseK(Of(s, r.name), r.key, r.ret))
    [] r.op = "resize" -> Set(s, r.name, LET c == Of(s, r.name) IN [cap |-> r.n, seq |-> KeepN(c.seq, r.n)])
    [] r.op = "clear" -> Set(s, r.name, [Of(s, r.name) EXCEPT !.seq = << >>])
    [] r.op = "resize_all" -> [m \in DOMAIN s \cup Names(r) |->
                                 IF m \in Names(r) THEN [cap |-> r.n, seq |-> KeepN(Of(s, m).seq, r.n)] ELSE s[m]]
    [] r.op = "clear_all" -> [m \in DOMAIN s |-> IF m \in Names(r) THEN [s[m] EXCEPT !.seq = << >>] ELSE s[m]]
    [] OTHER -> s        \* copies, failing requests, refused resizes, look-ups: no cache changes

\* what can be seen of a cache afterwards
SeenOK(c, o) == o.size = c.cap /\ o.count = Len(c.seq)
                /\ {o.values[i] : i \in 1..Len(o.values)} = {c.seq[i].tok : i \in 1..Len(c.seq)}
                /\ Len(o.values) = Len(c.seq)
                /\ o.last = (IF Len(c.seq) = 0 THEN 0 ELSE c.seq[Len(c.seq)].tok)
AllTok(s) == UNION {{s[m].seq[i].tok : i \in 1..Len(s[m].seq)} : m \in DOMAIN s}

\* the field returned is of the kind and has the options that were requested
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a < b THEN b ELSE a
RECURSIVE Pow2(_)
Pow2(n) == IF n = 0 THEN 1 ELSE 2 * Pow2(n - 1)
Dsq(p, x) == FSum([i \in 1..Len(p) |-> FMul(FSub(p[i], x[i]), FSub(p[i], x[i]))])
FieldOK(r) ==
  LET q == r.req g == r.got IN
  (IF g.kind = q.kind THEN {} ELSE {"kind"})
  \cup (IF FEq(g.min_size, IF q.brute THEN 0 ELSE q.min_size) /\ FEq(g.max_size, q.max_size) THEN {} ELSE {"sizes"})
  \cup (IF g.split = q.split /\ g.brute = q.brute THEN {} ELSE {"splitting"})
  \cup (IF g.max_top = q.max_top /\ (q.min_top < 0 \/ g.min_top = Min2(q.min_top, q.max_top)) /\ g.min_top <= g.max_top
        THEN {} ELSE {"top"})
  \cup (IF g.ntop <= Pow2(g.max_top) /\ g.ntop >= 1 /\ g.ntop = g.fresh THEN {} ELSE {"top_nodes"})
  \cup (IF g.coords = q.coords THEN {} ELSE {"coords"})
  \cup (IF g.cat = q.cat /\ g.ntot = Len(r.pts) THEN {} ELSE {"catalog"})
  \cup (IF g.near = Cardinality({i \in 1..Len(r.pts) : FLt(Dsq(r.pts[i], g.x), FMul(g.sep, g.sep))}) THEN {} ELSE {"contents"})

CJudge(s, r) ==
  IF r.err # "" THEN {"raised:" \o r.op}
  ELSE
  LET t == TLCEval(CAfter(s, r)) IN
  (CASE r.op = "get" ->
         LET c == Of(s, r.name) IN
         (IF HasK(c.seq, r.key) THEN (IF r.ret = Tok(c.seq, r.key) THEN {} ELSE {"cached_field_not_returned"})
          ELSE (IF r.ret \notin AllTok(s) THEN {} ELSE {"wrong_field_returned"}))
         \cup (IF r.called = (IF HasK(c.seq, r.key) THEN 0 ELSE 1) THEN {} ELSE {"built_when_cached_or_not"})
         \cup (IF "got" \in DOMAIN r THEN FieldOK(r) \cup (IF r.current = r.ret THEN {} ELSE {"field_attribute"}) ELSE {})
         \cup (IF HasK(c.seq, r.key) THEN {"@nontrivial"} ELSE {})
     [] r.op = "fail" \/ r.op = "badresize" -> IF r.refused THEN {} ELSE {"accepted"}
     [] r.op = "clear_all" -> IF r.current = 0 THEN {} ELSE {"field_attribute_after_clear"}
     [] OTHER -> {})
  \cup (IF \A n \in DOMAIN r.seen : SeenOK(Of(t, n), r.seen[n]) THEN {} ELSE {"cache_contents"})
=============================================================================
