SPECIFICATION Spec
CONSTANTS MaxFaults = 3 Fmts = {"xlsx", "xlsb"} Fine = FALSE
INVARIANTS Right Replayed
CHECK_DEADLOCK FALSE
