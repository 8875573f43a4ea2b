CONSTANTS Last = 3  Depth = 3  Two = TRUE
SPECIFICATION Spec
INVARIANT Emit
PROPERTY Grows
CHECK_DEADLOCK FALSE
