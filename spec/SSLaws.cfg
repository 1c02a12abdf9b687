CONSTANTS
  Dims = {2, 3, 4, 5, 8, 20}
  Grid = 16
INIT Init
NEXT Next
INVARIANTS Proper Sound Tangent Balance Shrinks
CHECK_DEADLOCK FALSE
