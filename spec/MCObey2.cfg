CONSTANTS Depth = 2
Letters = {"agree", "lead", "lead0", "leadA", "A", "B", "A2", "none", "self", "X"}
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
