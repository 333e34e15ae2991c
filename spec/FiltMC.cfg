SPECIFICATION Spec
CONSTANTS MaxRows = 3 Fmts = {"xlsx", "xlsb"}
INVARIANTS Kept Refused Replayed
CHECK_DEADLOCK FALSE
