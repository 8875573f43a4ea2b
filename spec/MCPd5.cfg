SPECIFICATION Spec
INVARIANT Inv
CONSTANT Max = 5
CHECK_DEADLOCK FALSE
