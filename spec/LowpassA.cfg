SPECIFICATION Spec
CONSTANTS NP = 6 NS = 10 M = 45 H = 2 Write = TRUE
INVARIANTS TypeOK Finds Emit
CHECK_DEADLOCK FALSE
