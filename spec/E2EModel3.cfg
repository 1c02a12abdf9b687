SPECIFICATION Spec
CONSTANTS N = 3 Extra = {0, 1, 2, 3, 4} MaxK = 35
INVARIANTS InTime NeverWrong Gap BallStays Exact Emit
CHECK_DEADLOCK FALSE
