SPECIFICATION Spec
CONSTANTS Which = 3 MaxLen = 6
INVARIANTS Meaning Replayed
PROPERTIES Settled Once
CHECK_DEADLOCK FALSE
