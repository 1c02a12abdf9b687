SPECIFICATION Spec
CONSTANTS H = 3 Kind = "discrete"
INVARIANTS Right Emit
CHECK_DEADLOCK FALSE
