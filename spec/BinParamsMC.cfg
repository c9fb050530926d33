INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANTS SepInv DimInv RefuseInv
