SPECIFICATION Spec
CONSTANTS MaxFaults = 1 Fmts = {"xlsx", "xlsb"} Fine = TRUE
INVARIANTS Right Replayed
CHECK_DEADLOCK FALSE
