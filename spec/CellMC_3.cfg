SPECIFICATION Spec
CONSTANTS MaxCells = 3 Kinds = {1,3,4,6,8,9} Moves = {"right","below","gap"}
INVARIANTS Placed Valued Replayed
CHECK_DEADLOCK FALSE
