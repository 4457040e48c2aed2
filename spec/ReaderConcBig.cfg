SPECIFICATION Spec
CONSTANTS
  Clients = {a, b, c}
  MaxOps = 6
  N1 = 3
  N2 = 0
  OutCap = 2
  DecCap = 1
  Sizes = {1, 3}
  Allowed = {"R", "C", "X", "A"}
  E1_ = "EOF"
  E2_ = "CORRUPT"
  MaxResets = 2
INVARIANTS Agrees Locks NoOrphan ClosedGone NoDeadlock
PROPERTIES LeaveAlone Returns
CHECK_DEADLOCK FALSE
