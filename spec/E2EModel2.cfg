SPECIFICATION Spec
CONSTANTS N = 2 Extra = {0, 1, 2, 3, 4} MaxK = 25
INVARIANTS InTime NeverWrong Gap BallStays Exact Emit
CHECK_DEADLOCK FALSE
