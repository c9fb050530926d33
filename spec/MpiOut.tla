------------------------------- MODULE MpiOut -------------------------------
(* Recorded runs on a simulated communicator against MpiProc: a trace of      *)
(* sends, receives, collective operations and ends of ranks is accepted when  *)
(* every message is received once, after it was sent, and every rank ends;    *)
(* the shares that arrive at rank 0 in one round are sets of jobs of the      *)
(* calculation that do not overlap; and the content of rank 0 (of every rank, *)
(* for covariances) is that of the serial calculation.                        *)
EXTENDS AgreeOut, FiniteSets

KeySet(e) == {e.keys[q] : q \in 1..Len(e.keys)}
(* numbers of messages under way, from each rank to rank 0..: state of the replay *)
RECURSIVE Replay(_, _, _, _)
Replay(ev, k, ch, bad) ==
  IF k > Len(ev) THEN bad \cup (IF \E q \in DOMAIN ch : ch[q] # 0 THEN {"message_left"} ELSE {})
  ELSE LET e == ev[k]
           src == IF e.op = "send" THEN <<e.rank, e.peer>> ELSE <<e.peer, e.rank>>
           now == IF src \in DOMAIN ch THEN ch[src] ELSE 0
       IN CASE e.op = "send" -> Replay(ev, k + 1, (src :> (now + 1)) @@ ch, bad)
            [] e.op = "recv" -> Replay(ev, k + 1, (src :> (IF now = 0 THEN 0 ELSE now - 1)) @@ ch, IF now = 0 THEN bad \cup {"received_nothing"} ELSE bad)
            [] OTHER -> Replay(ev, k + 1, ch, bad)

JobKey(r, t) ==
  LET n == r.n  two == r.kind \in {"auto2", "cross2"}
      in(q, m) == q >= 0 /\ q < m
      mx == IF n[1] >= n[2] /\ n[1] >= n[3] THEN n[1] ELSE IF n[2] >= n[3] THEN n[2] ELSE n[3]
  IN IF Len(t) # (IF two THEN 2 ELSE 3) THEN FALSE
     ELSE IF r.local THEN \A q \in 2..Len(t) : t[q] = t[1] /\ in(t[1], mx)
     ELSE CASE r.kind = "auto2" -> in(t[1], n[1]) /\ in(t[2], n[1]) /\ t[1] <= t[2]
            [] r.kind = "cross2" -> in(t[1], n[1]) /\ in(t[2], n[2])
            [] r.kind = "auto3" -> in(t[1], n[1]) /\ in(t[3], n[1]) /\ t[1] <= t[2] /\ t[2] <= t[3]
            [] r.kind = "cross12" -> in(t[1], n[1]) /\ in(t[2], n[2]) /\ in(t[3], n[2]) /\ t[2] <= t[3]
            [] r.kind = "cross3" -> in(t[1], n[1]) /\ in(t[2], n[2]) /\ in(t[3], n[3])
            [] OTHER -> FALSE

Shares(r) == {q \in 1..Len(r.events) : r.events[q].op = "send" /\ r.events[q].peer = 0}
(* the end of each rank is in the trace *)
Ended(r) == {r.events[q].rank : q \in {k \in 1..Len(r.events) : r.events[k].op = "end"}}

MpiJudge(r) ==
  IF r.err # "" THEN {"raised"}
  ELSE AgreeJudge(r)
       \cup Replay(r.events, 1, <<>>, {})
       \cup (IF r.left = 0 THEN {} ELSE {"message_left"})
       \cup (IF Ended(r) = 0..(r.size - 1) THEN {} ELSE {"rank_missing"})
       \cup (IF r.kind = "cov" \/ r.rounds # 1 THEN {}
             ELSE (IF \A a \in Shares(r), b \in Shares(r) : a = b \/ KeySet(r.events[a]) \cap KeySet(r.events[b]) = {}
                   THEN {} ELSE {"job_done_twice"})
                  \cup (IF \A a \in Shares(r) : \A t \in KeySet(r.events[a]) : JobKey(r, t) THEN {} ELSE {"not_a_job"}))
=============================================================================
