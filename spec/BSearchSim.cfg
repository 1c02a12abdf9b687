CONSTANTS
  Brackets <- MCBrackets
  Tols <- MCTols
  Budgets = {12, 40, 60}
INIT Init
NEXT Next
INVARIANTS Bracket Smallest Separates Halves Count Emit
CHECK_DEADLOCK FALSE
