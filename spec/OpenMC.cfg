SPECIFICATION Spec
CONSTANTS Parts = {"xml", "bin", "rels", "sheet", "sst", "styles", "near"} Archives = {"zip", "cut", "none", "text"} Readers = {"read", "xlsx", "xlsb"}
INVARIANTS Right Replayed
CHECK_DEADLOCK FALSE
