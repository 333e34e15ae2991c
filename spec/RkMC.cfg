SPECIFICATION Spec
CONSTANTS
  EB = 11
  MB = 18
  K = 3
  Full = TRUE
INVARIANTS Integer Float Replayed
CHECK_DEADLOCK FALSE
