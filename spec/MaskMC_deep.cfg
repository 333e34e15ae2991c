SPECIFICATION Spec
CONSTANTS N = 7
INVARIANTS Monotone Named Final Some Replayed
CHECK_DEADLOCK FALSE
