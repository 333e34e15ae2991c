SPECIFICATION Spec
INVARIANTS Inverse Replayed
CHECK_DEADLOCK FALSE
