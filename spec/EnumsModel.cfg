SPECIFICATION Spec
INVARIANT TablesInv
CHECK_DEADLOCK FALSE
