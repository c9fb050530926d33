----------------------------- MODULE Behaviours -----------------------------
(* Emitting the behaviours of a specification for replay into the code: the   *)
(* history of actions is part of the state, so that TLC's search enumerates   *)
(* every behaviour up to the given length (or samples them in simulation).    *)
EXTENDS Naturals, Sequences, TLC, Json
VARIABLE hist
Emit(depth) == Len(hist) < depth \/ PrintT("@@BEH " \o ToJson(hist))
Did(a) == hist' = Append(hist, a)
=============================================================================
