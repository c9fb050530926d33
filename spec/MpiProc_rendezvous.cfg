SPECIFICATION Spec
CONSTANTS MaxPatch = 3
 MaxRank = 4
 MaxRound = 2
 Carry = FALSE
 Rendezvous = TRUE
 Parity = TRUE
 Kinds = {"auto2", "auto3"}
INVARIANTS Partition Complete Clean NoDouble
PROPERTY Ends
