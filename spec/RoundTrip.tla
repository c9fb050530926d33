----------------------------- MODULE RoundTrip -----------------------------
(* Correlation objects and the files they are written to.  The content of an  *)
(* object: which data it holds (data, 0: none), whether it has its per-patch  *)
(* results (res) and a covariance that can be given (cov), and whether        *)
(* randoms were combined into it (rand: 0 no, 1 yes with the randoms at hand, *)
(* 2 yes but the randoms are gone).  A file holds the content of the object   *)
(* when it was written, without the results (or covariance) unless asked for, *)
(* whatever happens to the object afterwards.                                 *)
EXTENDS Naturals
CONSTANTS Objs, Files, Pieces, KeepsRandoms
VARIABLES obj, file
vars == <<obj, file>>
None == [data |-> 0, res |-> FALSE, cov |-> FALSE, rand |-> 0]
NoFile == None
Init == obj = [o \in Objs |-> None] /\ file = [f \in Files |-> NoFile]
Make(o, p) == obj' = [obj EXCEPT ![o] = [data |-> p, res |-> TRUE, cov |-> TRUE, rand |-> 0]] /\ UNCHANGED file
\* combining randoms needs the patches of the data to be known
Calc(o) == /\ obj[o].data # 0 /\ obj[o].res /\ obj[o].rand # 2
           /\ obj' = [obj EXCEPT ![o].rand = 1] /\ UNCHANGED file
\* KeepsRandoms: files with per-patch results hold those of the randoms as well
Stored(c, pr, cv) == [data |-> c.data, res |-> pr /\ c.res, cov |-> cv \/ (pr /\ c.res /\ (c.rand = 0 \/ (c.rand = 1 /\ KeepsRandoms))),
                      rand |-> IF c.rand = 0 THEN 0 ELSE IF c.rand = 1 /\ pr /\ c.res /\ KeepsRandoms THEN 1 ELSE 2]
Write(o, f, pr, cv) == /\ obj[o].data # 0 /\ (cv => obj[o].cov)
                       /\ file' = [file EXCEPT ![f] = Stored(obj[o], pr, cv)] /\ UNCHANGED obj
Load(o, f) == file[f].data # 0 /\ obj' = [obj EXCEPT ![o] = file[f]] /\ UNCHANGED file
Copy(o, q) == obj[o].data # 0 /\ o # q /\ obj' = [obj EXCEPT ![q] = obj[o]] /\ UNCHANGED file
Next == \E o \in Objs :
          \/ \E p \in Pieces : Make(o, p)
          \/ Calc(o)
          \/ \E f \in Files : Load(o, f) \/ \E pr, cv \in BOOLEAN : Write(o, f, pr, cv)
          \/ \E q \in Objs : Copy(o, q)
Spec == Init /\ [][Next]_vars
\* an object with its results can always give its covariance, unless randoms that are gone were combined into it
Recoverable == \A o \in Objs : obj[o].data # 0 /\ obj[o].res /\ obj[o].rand # 2 => obj[o].cov
=============================================================================
