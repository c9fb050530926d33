------------------------------ MODULE MpiProc ------------------------------
(* Correlations of catalogs divided into patches, computed by several        *)
(* processes (ranks).  The jobs are the pairs/triples of patches.  Every rank *)
(* works through its own jobs, every rank but 0 then sends what it has        *)
(* accumulated to rank 0, which adds the messages to its own.  Several rounds *)
(* (calls with initialize=False) accumulate in the same object.               *)
(*                                                                            *)
(* What matters to the user: when rank 0 is finished, its content is every    *)
(* job of every round exactly once (Complete); nothing is left in a channel,  *)
(* and no rank waits forever (TLC's deadlock check; Done is the only state    *)
(* that may stay).                                                            *)
(*                                                                            *)
(* Carry: TRUE is the behaviour before the repair, where a rank kept what it  *)
(* had already sent and sent it again in the next round.                      *)
EXTENDS Naturals, FiniteSets, Sequences, TLC
CONSTANTS MaxPatch, MaxRank, MaxRound, Carry, Rendezvous, Parity, Kinds

Kind == Kinds
R(s) == 0..(s - 1)
P(n) == 0..(n - 1)
Max2(a, b) == IF a > b THEN a ELSE b

(* the jobs of each kind of calculation: <<i, j, k>>, k = 0 when there are only two *)
Jobs(kind, local, n1, n2) ==
  IF local THEN
    (CASE kind = "auto2" -> {<<i, i, 0>> : i \in P(n1)}
       [] kind = "cross2" -> {<<i, i, 0>> : i \in P(n1)}
       [] kind = "auto3" -> {<<i, i, i>> : i \in P(n1)}
       [] kind = "cross12" -> {<<i, i, i>> : i \in P(n1)})
  ELSE
    (CASE kind = "auto2" -> {<<i, j, 0>> : i \in P(n1), j \in P(n1)} \cap {t \in P(n1) \X P(n1) \X {0} : t[1] <= t[2]}
       [] kind = "cross2" -> P(n1) \X P(n2) \X {0}
       \* (i,j,j) stands for both (i,j,j) and (i,i,j): one unit of work
       [] kind = "auto3" -> {t \in P(n1) \X P(n1) \X P(n1) : (t[1] = t[2] /\ t[2] = t[3]) \/ (t[1] < t[2] /\ t[2] <= t[3])}
       [] kind = "cross12" -> {t \in P(n1) \X P(n2) \X P(n2) : t[2] <= t[3]})

(* the patches of each rank *)
Mine(n, size, rank) == {p \in P(n) : p >= (n * rank) \div size /\ p < (n * (rank + 1)) \div size}

(* who does what: the rules of the code *)
Even2(M, n, i, j) ==
  IF i \in M /\ j \in M THEN TRUE
  ELSE IF i \notin M /\ j \notin M THEN FALSE
  ELSE LET a == IF ~Parity \/ j - i < n \div 2 THEN i ELSE j
       IN (a % 2 = 0) = (a \in M)
IsMine(kind, n1, n2, size, rank, t) ==
  LET n == Max2(n1, n2)
      M == Mine(n, size, rank)
      in == Cardinality({q \in 1..3 : t[q] \in M})
  IN CASE kind = "auto2" -> Even2(M, n, t[1], t[2])
       [] kind = "cross2" -> (IF n1 > n2 THEN t[1] ELSE t[2]) \in M
       [] kind = "auto3" -> (IF in = 3 THEN TRUE ELSE IF in = 0 THEN FALSE ELSE t[1 + (t[1] % 3)] \in M)
       [] kind = "cross12" -> (IF n1 = n THEN t[1] \in M ELSE Even2(M, n, t[2], t[3]))

VARIABLES cfg, round, todo, acc, chan, next, pc
vars == <<cfg, round, todo, acc, chan, next, pc>>

Share(c, rank) == {t \in Jobs(c.kind, c.local, c.n1, c.n2) : IsMine(c.kind, c.n1, c.n2, c.size, rank, t)}
Zero(c) == [t \in Jobs(c.kind, c.local, c.n1, c.n2) |-> 0]
Cfgs == {[kind |-> k, local |-> l, n1 |-> a, n2 |-> b, size |-> s, rounds |-> r] :
           k \in Kind, l \in BOOLEAN, a \in 1..MaxPatch, b \in 1..MaxPatch, s \in 1..MaxRank, r \in 1..MaxRound}
Legal(c) == /\ (c.kind \in {"auto2", "auto3"} => c.n1 = c.n2)
            /\ (c.n1 = c.n2 \/ c.n1 = 1 \/ c.n2 = 1)
            /\ Max2(c.n1, c.n2) > 1

(* every job belongs to exactly one rank, whatever the numbers are *)
Partition == \A t \in Jobs(cfg.kind, cfg.local, cfg.n1, cfg.n2) :
               Cardinality({q \in R(cfg.size) : IsMine(cfg.kind, cfg.n1, cfg.n2, cfg.size, q, t)}) = 1

Init == /\ cfg \in {c \in Cfgs : Legal(c)}
        /\ round = [q \in R(cfg.size) |-> 1]
        /\ todo = [q \in R(cfg.size) |-> Share(cfg, q)]
        /\ acc = [q \in R(cfg.size) |-> Zero(cfg)]
        /\ chan = [q \in R(cfg.size) |-> <<>>]
        /\ next = 1
        /\ pc = [q \in R(cfg.size) |-> "work"]

Add(f, g) == [t \in DOMAIN f |-> f[t] + g[t]]
Work(q) == /\ q < cfg.size /\ pc[q] = "work"
           /\ acc' = [acc EXCEPT ![q] = [t \in DOMAIN @ |-> @[t] + (IF t \in todo[q] THEN 1 ELSE 0)]]
           /\ todo' = [todo EXCEPT ![q] = {}]
           /\ pc' = [pc EXCEPT ![q] = IF q = 0 THEN "recv" ELSE "send"]
           /\ UNCHANGED <<cfg, round, chan, next>>
(* with an unbuffered communicator a send ends only when its message is taken: at most one message in the channel *)
Send(q) == /\ q < cfg.size /\ pc[q] = "send"
           /\ (Rendezvous => chan[q] = <<>>)
           /\ chan' = [chan EXCEPT ![q] = Append(@, acc[q])]
           /\ pc' = [pc EXCEPT ![q] = IF Rendezvous THEN "wait" ELSE "end"]
           /\ UNCHANGED <<cfg, round, todo, acc, next>>
Sent(q) == /\ q < cfg.size /\ pc[q] = "wait" /\ chan[q] = <<>>
           /\ pc' = [pc EXCEPT ![q] = "end"]
           /\ UNCHANGED <<cfg, round, todo, acc, chan, next>>
Recv == /\ pc[0] = "recv" /\ next < cfg.size /\ chan[next] # <<>>
        /\ acc' = [acc EXCEPT ![0] = Add(@, Head(chan[next]))]
        /\ chan' = [chan EXCEPT ![next] = Tail(@)]
        /\ next' = next + 1
        /\ UNCHANGED <<cfg, round, todo, pc>>
Received == /\ pc[0] = "recv" /\ next = cfg.size
            /\ pc' = [pc EXCEPT ![0] = "end"] /\ next' = 1
            /\ UNCHANGED <<cfg, round, todo, acc, chan>>
(* the next call with initialize=False *)
Again(q) == /\ q < cfg.size /\ pc[q] = "end" /\ round[q] < cfg.rounds
            /\ round' = [round EXCEPT ![q] = @ + 1]
            /\ todo' = [todo EXCEPT ![q] = Share(cfg, q)]
            /\ acc' = IF q # 0 /\ ~Carry THEN [acc EXCEPT ![q] = Zero(cfg)] ELSE acc
            /\ pc' = [pc EXCEPT ![q] = "work"]
            /\ UNCHANGED <<cfg, chan, next>>
AllDone == \A q \in R(cfg.size) : pc[q] = "end" /\ round[q] = cfg.rounds
Done == AllDone /\ UNCHANGED vars

Next == \/ \E q \in 0..(MaxRank - 1) : Work(q)
        \/ \E q \in 0..(MaxRank - 1) : Again(q)
        \/ \E q \in 1..(MaxRank - 1) : Send(q)
        \/ \E q \in 1..(MaxRank - 1) : Sent(q)
        \/ Recv \/ Received \/ Done
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Complete == (pc[0] = "end" /\ round[0] = cfg.rounds) => \A t \in DOMAIN acc[0] : acc[0][t] = cfg.rounds
Clean == AllDone => \A q \in R(cfg.size) : chan[q] = <<>>
(* at every moment, what rank 0 has is a sum of whole shares *)
NoDouble == \A t \in DOMAIN acc[0] : acc[0][t] <= round[0]
Ends == <>AllDone
=============================================================================
