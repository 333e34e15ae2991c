SPECIFICATION Spec
CONSTANTS MaxRows = 2 KindsA = {0,1,2,3,4,5,6,7,8,9,10} KindsB = {0,2,6}
INVARIANTS Alike Replayed
CHECK_DEADLOCK FALSE
