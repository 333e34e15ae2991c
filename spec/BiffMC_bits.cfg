SPECIFICATION Spec
CONSTANTS B = 128 MaxRecs = 2 Ids = {5, 412} Sizes = {3, 8192, 24576, 65536, 1048576, 3145728, 6291461} Cuts = "near" Onlys = "one" Widths = {0} Emitting = TRUE
INVARIANTS Exact Never Shortest Replayed
CHECK_DEADLOCK FALSE
