CONSTANTS
  Depth = 2
  Starts <- SomeStarts
  Pars = {TRUE}
INIT Init
NEXT Next
INVARIANTS Genuine NothingLost Emit
PROPERTIES RefusedKeeps Shrinking
CHECK_DEADLOCK FALSE
