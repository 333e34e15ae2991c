SPECIFICATION Spec
CONSTANTS Sizes = {20000, 150000} Width = 8 Faults = {"no"}
INVARIANTS Replayed
CHECK_DEADLOCK FALSE
