SPECIFICATION Spec
VIEW View
INVARIANT WellFormed
INVARIANT ZsetOrder
PROPERTY Frame
PROPERTY RefusalChangesNothing
PROPERTY ReadsChangeNothing
PROPERTY WrongTypeRefused
PROPERTY DeadlineKept
CHECK_DEADLOCK FALSE
