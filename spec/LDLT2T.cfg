SPECIFICATION Spec
CONSTANTS N = 2 Lo = 1 Hi = 3 H = 2 Rand = FALSE
INVARIANTS Verdict SemiVerdict Certificate Root MinorLaw Emit
CHECK_DEADLOCK FALSE
