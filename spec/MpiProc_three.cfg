SPECIFICATION Spec
CONSTANTS MaxPatch = 4
 MaxRank = 4
 MaxRound = 1
 Carry = FALSE
 Rendezvous = FALSE
 Parity = TRUE
 Kinds = {"auto3", "cross12"}
INVARIANTS Partition Complete Clean NoDouble
PROPERTY Ends
