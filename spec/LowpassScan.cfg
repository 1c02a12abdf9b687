SPECIFICATION Spec
CONSTANTS NP = 4 NS = 7 M = 15 H = 2 Write = FALSE
INVARIANTS TypeOK Finds
CHECK_DEADLOCK FALSE
