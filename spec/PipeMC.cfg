SPECIFICATION Spec
CONSTANTS MaxRows = 2 MaxCells = 2 Faults = {"no", "call", "null", "text"} Logged = TRUE
INVARIANTS InOrder Whole Raised Marks Replayed
CHECK_DEADLOCK FALSE
