SPECIFICATION Spec
CONSTANTS N = 2 Hi = 5 Bs = {0, 1, 3}
INVARIANTS Finite Consistent Emit
CHECK_DEADLOCK FALSE
