CONSTANTS Slots = {1, 2}  MaxWrites = 2  MaxFaults = 2  Faults = {"break", "interrupt", "repeat", "swap"}
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS Faithful NothingMissing
PROPERTY Converges
