CONSTANTS Last = 4  Depth = 4  Two = FALSE
SPECIFICATION Spec
INVARIANT Emit
PROPERTY Grows
CHECK_DEADLOCK FALSE
