SPECIFICATION Spec
CONSTANTS MaxLen = 5
 Alphabet = {"R1", "RB", "RA", "C", "A", "X"}
CHECK_DEADLOCK FALSE
