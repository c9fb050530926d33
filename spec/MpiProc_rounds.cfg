SPECIFICATION Spec
CONSTANTS MaxPatch = 3
 MaxRank = 3
 MaxRound = 3
 Carry = FALSE
 Rendezvous = FALSE
 Parity = TRUE
 Kinds = {"auto2", "cross2"}
INVARIANTS Partition Complete Clean NoDouble
PROPERTY Ends
