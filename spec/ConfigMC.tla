------------------------------ MODULE ConfigMC ------------------------------
(* A run as a sequence of steps: choose what is given, check it, compute the   *)
(* outputs one after the other in any order.  A run that the rules accept      *)
(* writes every output; one that they refuse stops; nothing is written that    *)
(* was not asked for; every accepted output has an estimator its inputs allow. *)
EXTENDS Config
CONSTANT Outs
VARIABLES r, todo, written, phase
vars == <<r, todo, written, phase>>

Stages == {"nn", "nk", "ng", "nnn"}
Init ==
  /\ r \in [three : {FALSE}, cat2 : BOOLEAN, rand1 : BOOLEAN, rand2 : BOOLEAN, bad : BOOLEAN, has : {<<{"k"}, {"k"}>>, <<{"k", "g"}, {"g"}>>, <<{}, {"k", "g"}>>},
            outs : {{}}, layers : {<< << >> >>}]
  /\ todo = {} /\ written = << >> /\ phase = "choose"
Choose ==
  /\ phase = "choose"
  /\ \/ \E o \in Outs \ r.outs : Cardinality(r.outs) < 2 /\ r' = [r EXCEPT !.outs = @ \cup {o}]
     \/ \E p \in {"nn", "nk", "ng"}, s \in {"compensated", "simple"} :
          /\ p \notin DOMAIN r.layers[1] /\ Cardinality(DOMAIN r.layers[1]) < 1
          /\ r' = [r EXCEPT !.layers = << (p :> s) >>]
     \* the command line overrides
     \/ \E p \in DOMAIN r.layers[1], s \in {"compensated", "simple"} : Len(r.layers) = 1 /\ r' = [r EXCEPT !.layers = << (p :> s), @[1] >>]
  /\ UNCHANGED <<todo, written, phase>>
Start == /\ phase = "choose"
         /\ IF r.bad \/ (r.rand2 /\ ~r.cat2) \/ \E o \in r.outs : Lacks(r, o) THEN phase' = "refused" /\ UNCHANGED todo
            ELSE phase' = "running" /\ todo' = r.outs
         /\ UNCHANGED <<r, written>>
Output == /\ phase = "running" /\ todo # {}
          /\ \E o \in todo :
               IF RefusedOut(r, o) THEN phase' = "refused" /\ UNCHANGED <<todo, written>>
               ELSE todo' = todo \ {o} /\ written' = (o :> Variant(r, o)) @@ written /\ UNCHANGED phase
          /\ UNCHANGED r
Stop == phase = "running" /\ todo = {} /\ phase' = "done" /\ UNCHANGED <<r, todo, written>>
Next == Choose \/ Start \/ Output \/ Stop
Fair == Init /\ [][Next]_vars /\ WF_vars(Output) /\ WF_vars(Stop)

OutcomeOK == /\ (phase = "done" => ~RefusedRun(r) /\ DOMAIN written = r.outs)
             /\ (phase = "refused" => RefusedRun(r))
OnlyAsked == DOMAIN written \subseteq r.outs
\* randoms are needed for what compensates with them, and used when they are given and not declined
EstimatorOK ==
  \A o \in DOMAIN written :
    /\ (written[o] \in {"comp", "compcomp", "compsimple", "simplecomp"} => r.rand1)
    /\ (o = "nn" /\ ~r.rand1 => written[o] = "none")
    /\ (o \in {"nk", "ng", "nm"} /\ r.rand1 /\ Stats1(r, StatOf(o), "") # "simple" => written[o] = "comp")
    /\ (Stats1(r, StatOf(o), "") = "simple" /\ o \in {"nk", "ng", "nm", "nn"} => written[o] # "comp")
\* the first layer (the command line) decides
LayerOK == Len(r.layers) = 2 => \A p \in DOMAIN r.layers[1] : Stats1(r, p, "") = r.layers[1][p]
Ends == (phase = "running") ~> (phase \in {"done", "refused"})
=============================================================================
