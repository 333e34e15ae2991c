SPECIFICATION Spec
CONSTANT Depth = 4
INVARIANTS Answers Replayed
CHECK_DEADLOCK FALSE
