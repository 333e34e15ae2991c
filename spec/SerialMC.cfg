SPECIFICATION Spec
CONSTANTS LastYear = 9999
INVARIANTS Named Increasing Replayed
CHECK_DEADLOCK FALSE
