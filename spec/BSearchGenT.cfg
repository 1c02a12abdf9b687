CONSTANTS
  Brackets <- MCBrackets
  Tols <- MCTols
  Budgets = {0, 1, 2, 3, 5, 9}
SPECIFICATION Spec
INVARIANTS Bracket Smallest Separates Halves Count Emit
PROPERTY Terminates
CHECK_DEADLOCK FALSE
