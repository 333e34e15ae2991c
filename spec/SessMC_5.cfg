SPECIFICATION Spec
CONSTANTS Depth = 5 Windows = {"all"} Ops = {}
INVARIANTS Alone WholeReads Kept Replayed
CHECK_DEADLOCK FALSE
