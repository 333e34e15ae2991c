SPECIFICATION Spec
CONSTANTS MaxRows = 2 Pool = {0,1,2,3,4,5,6,7,8,9,10,11}
INVARIANTS Marked Dropped Replayed
CHECK_DEADLOCK FALSE
