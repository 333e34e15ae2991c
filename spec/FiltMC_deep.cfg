SPECIFICATION Spec
CONSTANTS MaxRows = 5 Fmts = {"xlsx"}
INVARIANTS Kept Refused
CHECK_DEADLOCK FALSE
