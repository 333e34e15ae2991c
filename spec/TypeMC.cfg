SPECIFICATION Spec
CONSTANTS MaxLen = 3 Precs <- PrecList
INVARIANTS Decided Finer Unrounded Same Replayed
CHECK_DEADLOCK FALSE
