SPECIFICATION Spec
CONSTANTS
  Clients = {a, b}
  MaxOps = 4
  N1 = 3
  N2 = 0
  OutCap = 2
  DecCap = 1
  Sizes = {1, 3}
  Allowed = {"R", "C", "X"}
  E1_ = "EOF"
  E2_ = "CORRUPT"
  MaxResets = 1
INVARIANTS Agrees Locks NoOrphan ClosedGone NoDeadlock
PROPERTIES LeaveAlone Returns
CHECK_DEADLOCK FALSE
