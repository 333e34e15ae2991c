SPECIFICATION Spec
CONSTANTS MaxFaults = 2 Fmts = {"xlsx", "xlsb"} Fine = FALSE
INVARIANTS Right Replayed
CHECK_DEADLOCK FALSE
