SPECIFICATION Spec
CONSTANTS Keys = {1, 2}
 MaxT = 3
 MaxOps = 2
 Features = {"replace"}
INVARIANTS TypeOK Known Punctual
PROPERTIES NeverLive Reclaimed
CHECK_DEADLOCK FALSE
