CONSTANTS Slots = {1, 2}  Writers = {"a", "b"}  Subs = {"x", "y"}  MaxWrites = 1  How = "inside"
SPECIFICATION SpecReading
CHECK_DEADLOCK FALSE
INVARIANTS Numbered SameStream NothingLost
PROPERTIES Served Delivered
