SPECIFICATION Spec
INVARIANT Inv
CONSTANT Max = 3
CHECK_DEADLOCK FALSE
