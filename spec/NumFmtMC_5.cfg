SPECIFICATION Spec
CONSTANTS Which = 2 MaxLen = 5
INVARIANTS Meaning Replayed
PROPERTIES Settled Once
CHECK_DEADLOCK FALSE
