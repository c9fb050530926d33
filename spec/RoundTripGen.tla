---------------------------- MODULE RoundTripGen ----------------------------
EXTENDS RoundTrip, Behaviours
CONSTANT Depth
B(x) == IF x THEN 1 ELSE 0
GInit == hist = << >> /\ Init
GNext == /\ Len(hist) < Depth
         /\ \E o \in Objs :
              \/ \E p \in Pieces : Make(o, p) /\ Did(<<"make", o, p>>)
              \/ Calc(o) /\ Did(<<"calc", o>>)
              \/ \E f \in Files, pr, cv \in BOOLEAN, x \in 0..1 : Write(o, f, pr, cv) /\ Did(<<"write", o, f, B(pr), B(cv), x>>)
              \/ \E f \in Files, how \in 0..3 : Load(o, f) /\ Did(<<"load", o, f, how>>)
              \/ \E q \in Objs : Copy(o, q) /\ Did(<<"copy", o, q>>)
Out == Emit(Depth)
=============================================================================
