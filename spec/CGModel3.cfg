SPECIFICATION Spec
CONSTANTS N = 3 Hi = 3 Bs = {0, 1, 3}
INVARIANTS Finite Consistent Emit
CHECK_DEADLOCK FALSE
