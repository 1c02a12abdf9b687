CONSTANTS
  Depth = 2
  Starts <- AllStarts
  Pars = {TRUE, FALSE}
INIT Init
NEXT Next
INVARIANTS Genuine NothingLost Emit
PROPERTIES RefusedKeeps Shrinking
CHECK_DEADLOCK FALSE
