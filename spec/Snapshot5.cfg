CONSTANTS Slots = {1, 2}  Writers = {"a", "b"}  MaxWrites = 2  How = "walk"
SPECIFICATION SpecReading
CHECK_DEADLOCK FALSE
INVARIANTS Whole OneInstant InStream
PROPERTIES Served Ends
