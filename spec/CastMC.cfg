SPECIFICATION Spec
CONSTANTS MaxLen = 3 Targets <- AllTargets
INVARIANTS Exact Refused Untouched AnyText Named Replayed
CHECK_DEADLOCK FALSE
