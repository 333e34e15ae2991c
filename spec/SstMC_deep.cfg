SPECIFICATION Spec
CONSTANTS Which = 2 MaxItems = 2 MaxEls = 2
INVARIANTS Whole Complete Replayed
CHECK_DEADLOCK FALSE
