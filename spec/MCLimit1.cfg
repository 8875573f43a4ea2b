SPECIFICATION Spec
INVARIANTS Conserved AtMostN QuietServed QuietAll
PROPERTY EventuallyServed
CONSTANTS N = 1 Conns = 5
CHECK_DEADLOCK FALSE
