CONSTANTS
  Modes = {"feas", "optim", "optq"}
  Budgets = {0}
  Gammas = {}
  Gamma0 = 0
  Statuses = {}
  Sizes = {}
  None = None
  XQs = {}
INIT TInit
NEXT TNext
CHECK_DEADLOCK FALSE
