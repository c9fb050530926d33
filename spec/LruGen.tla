------------------------------- MODULE LruGen -------------------------------
EXTENDS LruCache, Behaviours
CONSTANT Depth
GInit == /\ hist = << >> /\ Init
         /\ cap = 1      \* (the size TreeCorr starts with)
GNext == /\ Len(hist) < Depth
         /\ \/ \E k \in Keys : Get(k) /\ Did(<<"get", k>>)
            \/ \E n \in Caps : n # cap /\ Resize(n) /\ Did(<<"resize", n>>)
            \/ Clear /\ seq # << >> /\ Did(<<"clear", 0>>)
            \/ UNCHANGED <<cap, seq>> /\ Did(<<"fail", 9>>) /\ Len(hist) < 2
            \/ UNCHANGED <<cap, seq>> /\ Did(<<"badresize", 0>>) /\ Len(hist) < 2
Out == Emit(Depth)
=============================================================================
