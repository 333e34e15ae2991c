SPECIFICATION Spec
CONSTANTS MaxRows = 2 Pool = {1,2,3,4,5}
INVARIANTS Exact Even Replayed
CHECK_DEADLOCK FALSE
