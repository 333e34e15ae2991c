SPECIFICATION Spec
CONSTANTS MaxCells = 3 Kinds = {1,2,3,4,5,6,7,8,9,10,11,12,13,14} Moves = {"right","far","down","below","gap"}
INVARIANTS Placed Valued
CHECK_DEADLOCK FALSE
