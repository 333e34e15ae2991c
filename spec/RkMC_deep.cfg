SPECIFICATION Spec
CONSTANTS
  EB = 11
  MB = 18
  K = 4
  Full = TRUE
INVARIANTS Integer Float Replayed
CHECK_DEADLOCK FALSE
