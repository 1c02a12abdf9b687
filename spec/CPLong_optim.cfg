CONSTANTS
  Modes = {"optim"}
  Budgets = {1000, 2000, 2001}
  Gammas = {0, 1}
  Gamma0 = 5
  Statuses = {"Success", "NoSoln", "NoEffect", "Unknown"}
  Sizes = {"below", "equal", "above"}
  None = None
  XQs = {"fresh", "centre", "buffer"}
INIT SInit
NEXT SNext
INVARIANT Emit
CHECK_DEADLOCK FALSE
