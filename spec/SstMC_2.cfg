SPECIFICATION Spec
CONSTANTS Which = 1 MaxItems = 2 MaxEls = 2
INVARIANTS Whole Complete Replayed
CHECK_DEADLOCK FALSE
