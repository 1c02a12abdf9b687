CONSTANTS
  Dims = {2, 3, 5, 12}
  Grid = 10
  Scales = {0, 6, 9}
INIT Init
NEXT Next
INVARIANTS Reduces TouchesIt Emit
CHECK_DEADLOCK FALSE
