CONSTANTS
  Values = {1, 2}
  MaxProbes = 3
  Budgets = {0, 1, 2, 3}
  Shape0 = 64
  Centre0 = 5
INIT Init
NEXT Next
INVARIANTS ShapeKept BestPoint StartsThere ValuePassed Emit
PROPERTY FailKeeps
CHECK_DEADLOCK FALSE
