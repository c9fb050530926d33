----------------------------- MODULE StateTrace -----------------------------
(* Validating recorded histories against a state machine: the variable st is  *)
(* the abstract state; each record is one operation with what was observed.   *)
(* A record with first = TRUE begins a new history.                           *)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils, SequencesExt

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, st

Stats == {"@ambiguous", "@empty", "@skip", "@nontrivial"}
Say(n, c) ==
  LET bad == c \ Stats
  IN /\ (IF bad = {} THEN TRUE ELSE PrintT("@@FAIL " \o ToString(n) \o " " \o ToString(bad)))
     /\ (("@skip" \in c) => PrintT("@@STAT skipped 1"))
     /\ (("@nontrivial" \in c) => PrintT("@@STAT nontrivial 1"))
Init == l = 1 /\ st = << >>
\* Start(r): abstract state a history begins in; Judge(s,r): violated clauses; After(s,r): the next abstract state
Step(Start(_), Judge(_, _), After(_, _)) ==
  /\ l <= Len(Trace)
  /\ l' = l + 1
  /\ LET r == Trace[l]
     IN IF r.err # "" /\ "op" \notin DOMAIN r
        THEN /\ Say(l, {"raised"}) /\ st' = << >>
        ELSE LET s == TLCEval(IF r.first THEN Start(r) ELSE st)
             IN /\ Say(l, Judge(s, r))
                /\ st' = TLCEval(After(s, r))
=============================================================================
