SPECIFICATION Spec
CONSTANTS B = 128 MaxRecs = 2 Ids = {0, 412} Sizes = {0, 127, 128} Cuts = "near" Onlys = "one" Widths = {0, 2, 4} Emitting = TRUE
INVARIANTS Exact Never Shortest Replayed
CHECK_DEADLOCK FALSE
