SPECIFICATION Spec
CONSTANTS Zs = {2, 4, 6, 7, 9, 14} D = 8 MaxN = 4
INVARIANTS SameAuto Inner OuterFails Positive Emit
CHECK_DEADLOCK FALSE
