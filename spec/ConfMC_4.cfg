SPECIFICATION Spec
CONSTANTS MaxLen = 4 Pool = {0,1,2,4,6,8}
INVARIANTS Wholly Forced Same Replayed
CHECK_DEADLOCK FALSE
