SPECIFICATION Spec
CONSTANTS N = 5
INVARIANTS Monotone Named Final Some Replayed
CHECK_DEADLOCK FALSE
