CONSTANTS Slots = {1, 2}  Writers = {"a", "b"}  Subs = {"x"}  MaxWrites = 2  How = "bounded"
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS Numbered SameStream NothingLost
PROPERTIES Served
