SPECIFICATION Spec
CONSTANTS MaxRows = 3 Pool = {1,2,3,4}
INVARIANTS Exact Even Replayed
CHECK_DEADLOCK FALSE
