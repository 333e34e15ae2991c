SPECIFICATION Spec
CONSTANTS MaxRows = 3 MaxCells = 2 Faults = {"no", "call", "null", "text"} Logged = FALSE
INVARIANTS InOrder Whole Raised Marks
PROPERTIES Ends Served
CHECK_DEADLOCK FALSE
