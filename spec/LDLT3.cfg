SPECIFICATION Spec
CONSTANTS N = 3 Lo = 2 Hi = 2 H = 1 Rand = FALSE
INVARIANTS Verdict SemiVerdict Certificate Root MinorLaw Emit
CHECK_DEADLOCK FALSE
