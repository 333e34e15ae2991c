SPECIFICATION Spec
CONSTANT Depth = 6
INVARIANTS Answers Replayed
CHECK_DEADLOCK FALSE
