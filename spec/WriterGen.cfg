SPECIFICATION Spec
CONSTANTS MaxLen = 4
 Alphabet = {"W0", "W1", "W2", "FB", "FP", "FS", "FF", "FC", "C", "R"}
INVARIANT Contract
CHECK_DEADLOCK FALSE
