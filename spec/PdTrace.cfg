SPECIFICATION Spec
VIEW View_
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
