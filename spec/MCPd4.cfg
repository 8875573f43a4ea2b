SPECIFICATION Spec
INVARIANT Inv
CONSTANT Max = 4
CHECK_DEADLOCK FALSE
