SPECIFICATION Spec
CONSTANTS H = 3 Kind = "robust"
INVARIANTS Right Emit
CHECK_DEADLOCK FALSE
