------------------------------ MODULE AccumGen ------------------------------
EXTENDS Accum, Behaviours
CONSTANTS Depth, CopyHeavy
GInit == hist = << >> /\ Init
B(x) == IF x THEN 1 ELSE 0
GNext == /\ Len(hist) < Depth
         /\ \E o \in Objs :
              \/ \E p \in Pieces, i \in BOOLEAN, f \in BOOLEAN, l \in BOOLEAN :
                   Process(o, p, i, f, l) /\ Did(<<"proc", o, p, B(i), B(f), B(l)>>)
              \/ \E q \in Objs : Add(o, q) /\ Did(<<"add", o, q>>)
              \/ \E q \in Objs, m \in (IF CopyHeavy THEN 0..3 ELSE {0, 3}) : Copy(o, q) /\ Did(<<"copy", o, q, m>>)
              \/ \E x \in 0..1 : Clear(o) /\ Did(<<"clear", o, x>>)
              \/ Create(o) /\ Did(<<"create", o>>)
              \/ \E x \in 0..2 : Finalize(o) /\ Did(<<"finalize", o, x>>)
              \/ \E x \in 0..5 : Look(o) /\ Did(<<"look", o, x>>)
              \/ Look(o) /\ ~obj[o].fin /\ Did(<<"bad", o>>)
Out == Emit(Depth)
=============================================================================
