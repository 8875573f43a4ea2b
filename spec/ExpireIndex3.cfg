SPECIFICATION Spec
CONSTANTS Keys = {1, 2}
 MaxT = 3
 MaxOps = 4
 Features = {"flush"}
INVARIANTS TypeOK Known Punctual
PROPERTIES NeverLive Reclaimed
CHECK_DEADLOCK FALSE
