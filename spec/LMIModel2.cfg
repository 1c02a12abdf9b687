SPECIFICATION Spec
CONSTANTS N = 2 V = 2 E = 2 H = 3
INVARIANTS Separates Emit
CHECK_DEADLOCK FALSE
