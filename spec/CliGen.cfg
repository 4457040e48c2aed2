SPECIFICATION Spec
INVARIANT Inv
CONSTANT MaxOpts = 2
CHECK_DEADLOCK FALSE
