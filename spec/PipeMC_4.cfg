SPECIFICATION Spec
CONSTANTS MaxRows = 4 MaxCells = 1 Faults = {"no", "call", "null", "text"} Logged = TRUE
INVARIANTS InOrder Whole Raised Marks Replayed
CHECK_DEADLOCK FALSE
