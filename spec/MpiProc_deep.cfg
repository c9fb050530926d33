SPECIFICATION Spec
CONSTANTS MaxPatch = 5
 MaxRank = 6
 MaxRound = 2
 Carry = FALSE
 Rendezvous = FALSE
 Parity = TRUE
 Kinds = {"auto2", "cross2", "auto3", "cross12"}
INVARIANTS Partition Complete Clean NoDouble
PROPERTY Ends
