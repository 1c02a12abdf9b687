CONSTANTS
  Depth = 7
  Starts <- AllStarts
  Pars = {TRUE, FALSE}
INIT Init
NEXT SNext
INVARIANTS Genuine NothingLost Emit

CHECK_DEADLOCK FALSE
