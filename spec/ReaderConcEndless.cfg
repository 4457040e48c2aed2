SPECIFICATION FairSpec
CONSTANTS
  Clients = {a, b}
  MaxOps = 3
  N1 = 1
  N2 = 0
  OutCap = 2
  DecCap = 1
  Sizes = {1, 3}
  Allowed = {"R", "C", "X"}
  E1_ = "NEVER"
  E2_ = "CORRUPT"
  MaxResets = 1
INVARIANTS Agrees Locks NoOrphan ClosedGone NoDeadlock
PROPERTIES LeaveAlone Stops
CHECK_DEADLOCK FALSE
