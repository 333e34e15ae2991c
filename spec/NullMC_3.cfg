SPECIFICATION Spec
CONSTANTS MaxRows = 3 Pool = {0,1,2,4,8}
INVARIANTS Marked Dropped Replayed
CHECK_DEADLOCK FALSE
