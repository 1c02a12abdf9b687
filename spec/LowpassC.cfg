SPECIFICATION Spec
CONSTANTS NP = 20 NS = 20 M = 45 H = 2 Write = TRUE
INVARIANTS TypeOK Finds Emit
CHECK_DEADLOCK FALSE
