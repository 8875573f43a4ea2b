CONSTANTS Slots = {1, 2}  Writers = {"a", "b"}  Subs = {"x", "y"}  MaxWrites = 1  How = "inside"
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS Numbered SameStream NothingLost
PROPERTIES Served
