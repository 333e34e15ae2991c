SPECIFICATION Spec
CONSTANTS LastCol = 16383
INVARIANTS Meaning Replayed
CHECK_DEADLOCK FALSE
