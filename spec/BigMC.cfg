SPECIFICATION Spec
CONSTANTS Sizes = {300, 6000} Width = 8 Faults = {"no", "call", "null", "text"}
INVARIANTS Replayed
CHECK_DEADLOCK FALSE
