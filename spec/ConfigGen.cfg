SPECIFICATION Spec
INVARIANT Inv
CONSTANTS MaxEpochs = 3 MaxOpts = 3 PerEpoch = 2
CHECK_DEADLOCK FALSE
