SPECIFICATION Fair
CONSTANT Outs = {"nn", "nk", "ng", "nm", "norm", "kk", "kg", "gg", "m2"}
INVARIANTS OutcomeOK OnlyAsked EstimatorOK LayerOK
PROPERTY Ends
CHECK_DEADLOCK FALSE
