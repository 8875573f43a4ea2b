SPECIFICATION Spec
INVARIANTS Conserved AtMostN QuietServed QuietAll
PROPERTY EventuallyServed
CONSTANTS N = 3 Conns = 5
CHECK_DEADLOCK FALSE
