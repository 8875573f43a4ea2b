SPECIFICATION Spec
VIEW Pos
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
