SPECIFICATION Spec
CONSTANTS
  EB = 4
  MB = 6
  K = 99
  Full = FALSE
INVARIANTS Integer Float Grows
CHECK_DEADLOCK FALSE
