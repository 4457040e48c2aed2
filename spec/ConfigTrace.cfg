SPECIFICATION Spec
INVARIANT EffInv
CHECK_DEADLOCK FALSE
