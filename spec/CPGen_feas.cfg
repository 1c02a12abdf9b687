CONSTANTS
  Modes = {"feas"}
  Budgets = {0, 1, 2, 3, 4}
  Gammas = {0, 1}
  Gamma0 = 5
  Statuses = {"Success", "NoSoln", "NoEffect", "Unknown"}
  Sizes = {"below", "equal", "above"}
  None = None
  XQs = {"fresh", "centre", "buffer"}
INIT Init
NEXT Next
INVARIANT Emit
CHECK_DEADLOCK FALSE
