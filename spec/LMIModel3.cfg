SPECIFICATION Spec
CONSTANTS N = 3 V = 2 E = 2 H = 3
INVARIANTS Separates Emit
CHECK_DEADLOCK FALSE
