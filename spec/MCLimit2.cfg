SPECIFICATION Spec
INVARIANTS Conserved AtMostN QuietServed QuietAll
PROPERTY EventuallyServed
CONSTANTS N = 2 Conns = 5
CHECK_DEADLOCK FALSE
