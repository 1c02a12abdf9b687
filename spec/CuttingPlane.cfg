CONSTANTS
  Modes = {"feas", "optim", "optq"}
  Budgets = {0, 1, 2, 3}
  Gammas = {0, 1}
  Gamma0 = 5
  Statuses = {"Success", "NoSoln", "NoEffect", "Unknown"}
  Sizes = {"below", "equal", "above"}
  None = None
  XQs = {"fresh", "centre", "buffer"}
SPECIFICATION Spec
INVARIANTS FeasSound BestSoFar LatestGamma KindOfCut RetryProtocol CurrentCentre StopsFirst Counts
CHECK_DEADLOCK FALSE
