SPECIFICATION Spec
CONSTANTS H = 4 Kind = "plain"
INVARIANTS Right Emit
CHECK_DEADLOCK FALSE
