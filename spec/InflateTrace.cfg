SPECIFICATION Spec
INVARIANT MachineSane
VIEW View
CHECK_DEADLOCK FALSE
