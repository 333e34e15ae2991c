SPECIFICATION Spec
CONSTANTS Which = 1 MaxLen = 4
INVARIANTS Meaning Replayed
PROPERTIES Settled Once
CHECK_DEADLOCK FALSE
