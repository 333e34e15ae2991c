SPECIFICATION Spec
CONSTANTS MaxLen = 5 Pool = {0,1,2,4,5,6,8}
INVARIANTS Wholly Forced Same
CHECK_DEADLOCK FALSE
