CONSTANTS
  Depth = 1
  Starts <- AllStarts
  Pars = {FALSE, TRUE}
INIT Init
NEXT Next
INVARIANTS Genuine NothingLost Emit
PROPERTIES RefusedKeeps Shrinking
CHECK_DEADLOCK FALSE
