SPECIFICATION Spec
INVARIANT ContractInv
VIEW View
CHECK_DEADLOCK FALSE
