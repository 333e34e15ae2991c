SPECIFICATION Spec
CONSTANTS MaxRows = 5 MaxCells = 3 Faults = {"no", "call", "null", "text"} Logged = FALSE
INVARIANTS InOrder Whole Raised Marks
PROPERTIES Ends Served
CHECK_DEADLOCK FALSE
