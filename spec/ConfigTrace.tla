----------------------------- MODULE ConfigTrace -----------------------------
EXTENDS Config, TraceBase

TextJudge(r) ==
  LET w == Read(r.files, r.files[r.main], << >>)
  IN IF "?" \in DOMAIN w THEN (IF r.err = "" THEN {"unreadable line accepted"} ELSE {})
     ELSE IF r.err # "" THEN {"readable text refused"}
     ELSE {"value of " \o n : n \in {m \in DOMAIN w \cup DOMAIN r.out : ~(m \in DOMAIN w /\ m \in DOMAIN r.out /\ w[m] = r.out[m])}}
          \cup (IF w # << >> THEN {"@nontrivial"} ELSE {})
CheckJudge(r) ==
  LET tab == Tables[r.tab]
      g == IF r.merge THEN Merged(tab, r.cfg, r.kw) ELSE r.cfg
      wrong == (IF r.merge THEN Refused(tab, r.kw @@ g) ELSE Refused(tab, g))
      w == Checked(tab, g)
  IN IF wrong THEN (IF r.err = "" THEN {"invalid parameters accepted"} ELSE {})
     ELSE IF r.err # "" THEN {"valid parameters refused"}
     ELSE {"value of " \o n : n \in {m \in DOMAIN w \cup DOMAIN r.out : ~(m \in DOMAIN w /\ m \in DOMAIN r.out /\ Same(w[m], r.out[m]))}}
          \cup {"@nontrivial"}
\* columns: name -> numbers; head: the other lines of the file
SameTable(r, a, b) ==
  /\ a.names = b.names /\ a.head = b.head
  /\ \A q \in DOMAIN b.cols : Len(a.cols[q]) = Len(b.cols[q])
                              /\ \A i \in DOMAIN b.cols[q] : \/ FIsNaN(a.cols[q][i]) /\ FIsNaN(b.cols[q][i])
                                                             \/ FClose(a.cols[q][i], b.cols[q][i], r.rtol, r.atol[q])
RunJudge(q) ==
  LET r == [q EXCEPT !.outs = {q.outs[i] : i \in DOMAIN q.outs}, !.has = [i \in DOMAIN q.has |-> {q.has[i][j] : j \in DOMAIN q.has[i]}]]
  IN IF RefusedRun(r) THEN (IF r.err = "" THEN {"run accepted that must be refused"} ELSE {})
     ELSE IF r.err # "" THEN {"run refused"}
     ELSE {"output " \o o : o \in {p \in r.outs : ~(p \in DOMAIN r.out /\ SameTable(r, r.out[p], r.ref[p][Variant(r, p)]))}}
          \cup (IF DOMAIN r.out # r.outs THEN {"files written"} ELSE {})
          \cup (IF r.changed THEN {"configuration changed"} ELSE {})
          \cup (IF r.outs # {} THEN {"@nontrivial"} ELSE {})
Judge(r) == IF r.op = "text" THEN TextJudge(r) ELSE IF r.op = "check" THEN CheckJudge(r) ELSE RunJudge(r)
Next == Step(Judge)
Spec == Init /\ [][Next]_l
=============================================================================
