CONSTANTS
  Brackets = {}
  Tols = {}
  Budgets = {}
INIT TInit
NEXT TNext
CHECK_DEADLOCK FALSE
