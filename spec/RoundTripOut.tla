---------------------------- MODULE RoundTripOut ----------------------------
(* Recorded histories of writing and reading correlations, judged against     *)
(* RoundTrip: what is observed of an object after reading equals what was     *)
(* observed of the object when it was written, to the digits of the file.     *)
EXTENDS FP, Integers, StateTrace

R == INSTANCE RoundTrip WITH Objs <- 1..2, Files <- 1..2, Pieces <- 1..2, obj <- st, file <- l, KeepsRandoms <- TRUE
D == INSTANCE RoundTrip WITH Objs <- 1..2, Files <- 1..2, Pieces <- 1..2, obj <- st, file <- l, KeepsRandoms <- FALSE
T(x) == x = 1
TStart(r) == [keeps |-> r.keeps, o |-> [q \in 1..2 |-> R!None], f |-> [q \in 1..2 |-> R!None],
              saw |-> [q \in 1..2 |-> << >>],                 \* file -> observations when it was written
              cur |-> [q \in 1..2 |-> << >>],                 \* object -> its latest observations
              tol |-> [q \in 1..2 |-> "0"]]
NewO(s, r) ==
  CASE r.op = "make" -> [data |-> r.p, res |-> TRUE, cov |-> TRUE, rand |-> 0]
    [] r.op = "calc" -> [s.o[r.o] EXCEPT !.rand = 1]
    [] r.op = "write" -> [s.o[r.o] EXCEPT !.rand = IF r.randgiven THEN 1 ELSE @]
    [] r.op = "load" -> s.f[r.f]
    [] r.op = "copy" -> s.o[r.q]
    [] OTHER -> s.o[r.o]
TAfter(s, r) ==
  IF r.op = "new" \/ r.err # "" THEN s
  ELSE LET n == NewO(s, r)
           s1 == [s EXCEPT !.o[r.o] = n, !.cur[r.o] = r.obs]
       IN IF r.op = "write"
          THEN [s1 EXCEPT !.f[r.f] = IF s.keeps THEN R!Stored(n, T(r.pr), T(r.cv)) ELSE D!Stored(n, T(r.pr), T(r.cv)), !.saw[r.f] = r.obs, !.tol[r.f] = r.tol]
          ELSE s1

Same(a, b, tol, floor) == Len(a) = Len(b) /\ \A k \in 1..Len(a) : a[k] = b[k] \/ FClose(a[k], b[k], tol, floor)
\* does the content c determine the observation of kind k?
Determined(c, k, keeps) ==
  CASE k = "res" \/ k = "npatch" -> c.res
    [] k = "cov" -> c.cov
    [] k = "est" \/ k = "stat" -> c.res /\ c.rand # 2
    [] OTHER -> TRUE
Tol(k, tol) == CASE k = "num" \/ k = "stat" -> tol [] k = "sq" -> FMul("2.5", tol) [] k = "cov" -> FMul("2.5", tol) [] k = "res" -> "1e-12" [] k = "opt" -> "1e-12" [] k = "est" -> "1e-8" [] k = "sas" -> FMul("20", tol) [] OTHER -> "0"
\* the floor: rounding that was amplified in what is computed from differences
Floor(x, tol) == IF x.kind = "sas" THEN FMul(FMul("20", tol), x.floor) ELSE IF x.kind = "opt" THEN "1e-12" ELSE x.floor
Compare(s, c, got, want, tol, what) ==
  (IF DOMAIN got \subseteq DOMAIN want \cup {n \in DOMAIN got : ~Determined(c, got[n].kind, s.keeps)} THEN {} ELSE {what \o ":attributes"})
  \cup UNION {LET w == want[n] IN
        IF ~Determined(c, w.kind, s.keeps) THEN {}
        ELSE IF n \notin DOMAIN got THEN {what \o ":missing " \o n}
        ELSE IF w.kind = "attr" \/ w.kind = "npatch" THEN (IF got[n].val = w.val THEN {} ELSE {what \o ":" \o n})
        ELSE IF Same(got[n].val, w.val, Tol(w.kind, tol), Floor(w, tol)) THEN {} ELSE {what \o ":" \o n} : n \in DOMAIN want}
TJudge(s, r) ==
  IF r.err # "" THEN {"raised:" \o r.op}
  ELSE IF r.op = "new" THEN (IF r.nontrivial THEN {"@nontrivial"} ELSE {})
  ELSE
  LET n == TLCEval(NewO(s, r)) IN
  CASE r.op = "load" -> Compare(s, n, r.obs, s.saw[r.f], s.tol[r.f], "read")
    [] r.op = "copy" -> Compare(s, n, r.obs, s.cur[r.q], "0", "copied")
    [] r.op = "make" -> Compare(s, n, r.obs, r.ref, "1e-8", "processed")        \* whatever the object was before
    [] r.op = "write" /\ ~r.randgiven -> Compare(s, n, r.obs, s.cur[r.o], "0", "changed by writing")
    [] OTHER -> {}
=============================================================================
