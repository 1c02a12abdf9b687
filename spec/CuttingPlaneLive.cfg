CONSTANTS
  Modes = {"feas", "optim", "optq"}
  Budgets = {0, 1, 2}
  Gammas = {1}
  Gamma0 = 5
  Statuses = {"Success", "NoSoln", "NoEffect"}
  Sizes = {"below", "above"}
  None = None
  XQs = {"fresh"}
SPECIFICATION Spec
PROPERTY Terminates
CHECK_DEADLOCK FALSE
