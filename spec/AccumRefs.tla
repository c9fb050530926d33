----------------------------- MODULE AccumRefs -----------------------------
(* How the per-patch results are stored: an object refers to a dictionary,    *)
(* and a dictionary maps a patch key to a stored correlation.  A copy is      *)
(* shallow: with CopyDict the dictionary is new (its entries are shared), and *)
(* without it the dictionary itself is shared.  Accumulating replaces the     *)
(* entry (Replace) or changes it in place.  Refines Accum: whatever happens   *)
(* to other objects, an object's results hold just what was put into it.      *)
EXTENDS Naturals, FiniteSets
CONSTANTS Objs, Pieces, CopyDict, Replace, MaxCount
VARIABLES ghost,    \* object -> bag of pieces it should hold
          ref,      \* object -> dictionary id
          dict,     \* dictionary id -> entry id (0: no entry yet)
          entry     \* entry id -> bag of pieces
vars == <<ghost, ref, dict, entry>>
Zero == [p \in Pieces |-> 0]
Ids == 1..8
Used == {ref[o] : o \in Objs}
NewDict == CHOOSE d \in Ids : d \notin Used
UsedE == {dict[ref[o]] : o \in Objs}
NewEntry == CHOOSE e \in Ids : e \notin UsedE
Init == /\ ghost = [o \in Objs |-> Zero] /\ ref = (CHOOSE f \in [Objs -> Ids] : \A a, b \in Objs : a # b => f[a] # f[b])
        /\ dict = [d \in Ids |-> 0] /\ entry = [e \in Ids |-> Zero]
Content(o) == LET e == dict[ref[o]] IN IF e = 0 THEN Zero ELSE entry[e]
Total(b) == LET RECURSIVE S(_)
                S(X) == IF X = {} THEN 0 ELSE LET p == CHOOSE x \in X : TRUE IN b[p] + S(X \ {p})
            IN S(Pieces)
Proc(o, p) ==
  /\ Total(ghost[o]) < MaxCount
  /\ ghost' = [ghost EXCEPT ![o][p] = @ + 1]
  /\ LET e == dict[ref[o]] n == NewEntry IN
     IF e = 0 \/ Replace
     THEN /\ entry' = [entry EXCEPT ![n] = [Content(o) EXCEPT ![p] = @ + 1]]
          /\ dict' = [dict EXCEPT ![ref[o]] = n]
     ELSE /\ entry' = [entry EXCEPT ![e][p] = @ + 1] /\ dict' = dict
  /\ UNCHANGED ref
Clear(o) == /\ ghost' = [ghost EXCEPT ![o] = Zero]
            /\ LET d == NewDict IN ref' = [ref EXCEPT ![o] = d] /\ dict' = [dict EXCEPT ![d] = 0]
            /\ UNCHANGED entry
Copy(o, q) == /\ o # q /\ ghost' = [ghost EXCEPT ![q] = ghost[o]]
              /\ IF CopyDict
                 THEN LET d == NewDict IN ref' = [ref EXCEPT ![q] = d] /\ dict' = [dict EXCEPT ![d] = dict[ref[o]]]
                 ELSE ref' = [ref EXCEPT ![q] = ref[o]] /\ dict' = dict
              /\ UNCHANGED entry
Next == \E o \in Objs : (\E p \in Pieces : Proc(o, p)) \/ Clear(o) \/ \E q \in Objs : Copy(o, q)
Spec == Init /\ [][Next]_vars
Independent == \A o \in Objs : Content(o) = ghost[o]
=============================================================================
