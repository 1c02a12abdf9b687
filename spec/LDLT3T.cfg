SPECIFICATION Spec
CONSTANTS N = 3 Lo = 1 Hi = 3 H = 1 Rand = FALSE
INVARIANTS Verdict SemiVerdict Certificate Root MinorLaw Emit
CHECK_DEADLOCK FALSE
