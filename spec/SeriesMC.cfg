SPECIFICATION Spec
CONSTANTS
  MaxRows = 3
  Gaps = {0, 1, 2}
  Pool = {1, 2, 3, 4, 5, 6, 7}
  MaxOff = 4
  MaxTake = 4
  MaxMask = 3
INVARIANTS Complete Sliced Exact Replayed
CHECK_DEADLOCK FALSE
