SPECIFICATION Spec
CONSTANTS Sizes = {40000, 100000} Width = 8 Faults = {"no", "call", "null", "text"}
INVARIANTS Replayed
CHECK_DEADLOCK FALSE
