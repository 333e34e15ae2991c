SPECIFICATION Spec
CONSTANTS MaxLen = 3 Pool = {0,1,2,3,4,5,6,7,8,9}
INVARIANTS Wholly Forced Same Replayed
CHECK_DEADLOCK FALSE
