SPECIFICATION Spec
CONSTANTS Depth = 4 Windows = {"all", "mid"} Ops = {"whole", "fail", "names"}
INVARIANTS Alone WholeReads Kept Replayed
CHECK_DEADLOCK FALSE
