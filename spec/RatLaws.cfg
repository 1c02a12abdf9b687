CONSTANT K = 4
INIT Init
NEXT Next
INVARIANTS Laws MatLaws
CHECK_DEADLOCK FALSE
