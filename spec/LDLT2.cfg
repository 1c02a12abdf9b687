SPECIFICATION Spec
CONSTANTS N = 2 Lo = 2 Hi = 2 H = 2 Rand = FALSE
INVARIANTS Verdict SemiVerdict Certificate Root MinorLaw Emit
CHECK_DEADLOCK FALSE
