CONSTANTS Slots = {1, 2}  MaxWrites = 2  MaxFaults = 2  Faults = {"lose", "repeat", "swap"}
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANT Faithful
PROPERTY Repaired
