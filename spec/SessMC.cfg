SPECIFICATION Spec
CONSTANTS Depth = 3 Windows = {"all", "mid"} Ops = {"whole", "fail", "names"}
INVARIANTS Alone WholeReads Kept Replayed
CHECK_DEADLOCK FALSE
