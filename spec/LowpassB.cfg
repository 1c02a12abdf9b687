SPECIFICATION Spec
CONSTANTS NP = 1 NS = 44 M = 45 H = 2 Write = TRUE
INVARIANTS TypeOK Finds Emit
CHECK_DEADLOCK FALSE
