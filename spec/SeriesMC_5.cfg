SPECIFICATION Spec
CONSTANTS
  MaxRows = 5
  Gaps = {0, 1}
  Pool = {1, 4, 7}
  MaxOff = 3
  MaxTake = 6
  MaxMask = 2
INVARIANTS Complete Sliced Exact Replayed
CHECK_DEADLOCK FALSE
