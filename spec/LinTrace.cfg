SPECIFICATION Spec
INVARIANT Seen
CHECK_DEADLOCK FALSE
