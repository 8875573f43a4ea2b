SPECIFICATION Spec
INVARIANTS Accepted InOrder OnePerGood NeverEarly
CONSTANTS MaxItems = 3 MaxLen = 2
CHECK_DEADLOCK FALSE
