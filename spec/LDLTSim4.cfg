SPECIFICATION Spec
CONSTANTS N = 4 Lo = 1 Hi = 2 H = 3 Rand = TRUE
INVARIANTS Verdict SemiVerdict Certificate Root MinorLaw Emit
CHECK_DEADLOCK FALSE
