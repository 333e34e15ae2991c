SPECIFICATION Spec
CONSTANTS Which = 1 MaxItems = 1 MaxEls = 4
INVARIANTS Whole Complete Replayed
CHECK_DEADLOCK FALSE
