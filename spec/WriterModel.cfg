SPECIFICATION Spec
CONSTANTS MaxAcc = 4
 MaxOps = 5
INVARIANTS Contract Visible Streams WellFormed Complete Aligned SelfContained Barrier NoneSilent
PROPERTIES Sticky SilentOK
CHECK_DEADLOCK FALSE
