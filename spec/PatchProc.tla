------------------------------ MODULE PatchProc -----------------------------
(* How catalogs divided into patches are correlated in one process.           *)
(* Objects lie on a line at whole positions; every object has a patch.        *)
(*   global: every pair of patches i <= j (auto) or every (i, j) (cross) is   *)
(*           correlated, unless the two patches are certainly too far apart;  *)
(*   local:  every patch of the first catalog is correlated with all objects  *)
(*           of the second in patches that may be within reach of it; for an  *)
(*           auto-correlation every pair is found from both of its ends.      *)
(* Patches are known by center and size (the largest distance of a member     *)
(* from the center), which is what decides "too far apart".                   *)
(*                                                                            *)
(* Whole: the sum of the parts is every pair within range exactly once (twice *)
(* for local auto).  Parts: the part (i, j) is the pairs between i and j.     *)
EXTENDS Integers, FiniteSets, Sequences, TLC
CONSTANTS NObj, NPatch, MaxPos, Reach, Slack, Kinds

Obj == 1..NObj
Patch == 0..(NPatch - 1)
VARIABLES kind, pos, pa, jobs, count, parts
vars == <<kind, pos, pa, jobs, count, parts>>

Abs(x) == IF x < 0 THEN -x ELSE x
MinS(S) == CHOOSE x \in S : \A y \in S : x <= y
MaxS(S) == CHOOSE x \in S : \A y \in S : x >= y
(* two catalogs: for a cross-correlation odd objects are in the first, even in the second *)
First == IF kind \in {"auto", "localauto"} THEN Obj ELSE {o \in Obj : o % 2 = 1}
Second == IF kind \in {"auto", "localauto"} THEN Obj ELSE {o \in Obj : o % 2 = 0}
In(S, p) == {o \in S : pa[o] = p}
(* center: middle of the members, doubled to stay whole *)
Center2(S) == MinS({pos[o] : o \in S}) + MaxS({pos[o] : o \in S})
Size2(S) == MaxS({Abs(2 * pos[o] - Center2(S)) : o \in S})
Near(S, T) == /\ S # {} /\ T # {}
              /\ Abs(Center2(S) - Center2(T)) <= Size2(S) + Size2(T) + 2 * Reach - Slack
Pairs(S, T) == {pr \in S \X T : pr[1] # pr[2] /\ Abs(pos[pr[1]] - pos[pr[2]]) <= Reach}
InOrder(pr) == IF pr[1] < pr[2] THEN pr ELSE <<pr[2], pr[1]>>
(* what one job counts *)
Found(j) ==
  CASE kind = "auto" -> {InOrder(pr) : pr \in Pairs(In(Obj, j[1]), In(Obj, j[2]))}
    [] kind = "cross" -> Pairs(In(First, j[1]), In(Second, j[2]))
    [] OTHER -> Pairs(In(First, j[1]), UNION {In(Second, q) : q \in {q \in Patch : Near(In(First, j[1]), In(Second, q))}})
Skipped(j) == kind \in {"auto", "cross"} /\ j[1] # j[2] /\ ~Near(In(First, j[1]), In(Second, j[2]))
AllJobs == CASE kind = "auto" -> {j \in Patch \X Patch : j[1] <= j[2]}
             [] kind = "cross" -> Patch \X Patch
             [] OTHER -> {<<p, p>> : p \in Patch}

Init == /\ kind \in Kinds
        /\ pos \in [Obj -> 0..MaxPos] /\ pos[1] = 0
        /\ pa \in [Obj -> Patch]
        /\ jobs = AllJobs
        /\ count = [pr \in Obj \X Obj |-> 0]
        /\ parts = <<>>
(* the order of the code: by first patch, then by second; here any order *)
Job(j) == /\ j \in jobs /\ ~Skipped(j)
          /\ LET f == Found(j)
             IN /\ count' = [pr \in Obj \X Obj |-> count[pr] + (IF pr \in f THEN 1 ELSE 0)]
                /\ parts' = (j :> f) @@ parts
          /\ jobs' = jobs \ {j}
          /\ UNCHANGED <<kind, pos, pa>>
Skip(j) == /\ j \in jobs /\ Skipped(j)
           /\ jobs' = jobs \ {j}
           /\ UNCHANGED <<kind, pos, pa, count, parts>>
(* (the jobs commute; one order is enough) *)
First_ == CHOOSE j \in jobs : \A q \in jobs : j[1] < q[1] \/ (j[1] = q[1] /\ j[2] <= q[2])
Run == jobs # {} /\ Job(First_)
Pass == jobs # {} /\ Skip(First_)
Next == Run \/ Pass
Spec == Init /\ [][Next]_vars

Times(pr) == IF ~(pr \in Pairs(First, Second)) THEN 0
             ELSE IF kind = "auto" THEN (IF pr[1] < pr[2] THEN 1 ELSE 0) ELSE 1
Whole == jobs = {} => \A pr \in Obj \X Obj : count[pr] = Times(pr)
Parts == jobs = {} => \A pr \in Obj \X Obj : Cardinality({j \in DOMAIN parts : pr \in parts[j]}) = count[pr]
PartIs == \A j \in DOMAIN parts : \A pr \in parts[j] :
            IF kind = "auto" THEN {pa[pr[1]], pa[pr[2]]} = {j[1], j[2]}
            ELSE IF kind = "cross" THEN pa[pr[1]] = j[1] /\ pa[pr[2]] = j[2]
            ELSE pa[pr[1]] = j[1]
=============================================================================
