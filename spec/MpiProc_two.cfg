SPECIFICATION Spec
CONSTANTS MaxPatch = 6
 MaxRank = 4
 MaxRound = 1
 Carry = FALSE
 Rendezvous = FALSE
 Parity = TRUE
 Kinds = {"auto2", "cross2"}
INVARIANTS Partition Complete Clean NoDouble
PROPERTY Ends
