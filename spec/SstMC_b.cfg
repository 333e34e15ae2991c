SPECIFICATION Spec
CONSTANTS Which = 2 MaxItems = 1 MaxEls = 3
INVARIANTS Whole Complete Replayed
CHECK_DEADLOCK FALSE
