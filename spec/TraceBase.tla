----------------------------- MODULE TraceBase -----------------------------
(* Reading a recorded trace and reporting the clauses a record violates.      *)
(* Clauses starting with "@" are statistics, not failures.                    *)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils, SequencesExt

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l

Stats == {"@ambiguous", "@empty", "@skip", "@nontrivial"}
Say(n, c) ==
  LET bad == c \ Stats
  IN /\ (IF bad = {} THEN TRUE ELSE PrintT("@@FAIL " \o ToString(n) \o " " \o ToString(bad)))
     /\ (("@ambiguous" \in c) => PrintT("@@STAT ambiguous_skipped 1"))
     /\ (("@empty" \in c) => PrintT("@@STAT no_pairs 1"))
     /\ (("@skip" \in c) => PrintT("@@STAT skipped 1"))
     /\ (("@nontrivial" \in c) => PrintT("@@STAT nontrivial 1"))
Init == l = 1
Step(Failing(_)) == /\ l <= Len(Trace)
                    /\ l' = l + 1
                    /\ Say(l, Failing(Trace[l]))
=============================================================================
