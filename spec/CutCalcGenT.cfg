CONSTANTS
  Dims = {2, 3, 4, 5, 6, 7, 10, 20, 64}
  Grid = 10
  Scales = {0, 6, 9}
INIT Init
NEXT Next
INVARIANTS Reduces TouchesIt Emit
CHECK_DEADLOCK FALSE
