CONSTANTS Me = 1  Others = {2, 3}  MaxEpoch = 6  Guarded = TRUE
SPECIFICATION Spec
INVARIANTS TypeOK OneCurrent
PROPERTIES OnlyTheLeader ReportsTold
CHECK_DEADLOCK FALSE
