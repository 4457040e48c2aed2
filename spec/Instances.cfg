SPECIFICATION Spec
CONSTANTS Inst = {1, 2}
 Objs = {11, 12, 13, 14}
 Blocks = 2
 BlockLen = 2
 Clean = TRUE
INVARIANTS Exclusive CleanAtRest NonInterference
CHECK_DEADLOCK FALSE
