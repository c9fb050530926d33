SPECIFICATION Spec
CONSTANTS MaxPatch = 3
 MaxRank = 3
 MaxRound = 2
 Carry = TRUE
 Rendezvous = FALSE
 Parity = TRUE
 Kinds = {"auto2"}
INVARIANTS Partition Complete Clean NoDouble
PROPERTY Ends
