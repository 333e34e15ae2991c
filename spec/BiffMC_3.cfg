SPECIFICATION Spec
CONSTANTS B = 128 MaxRecs = 3 Ids = {0, 128, 400} Sizes = {0, 1, 300} Cuts = "near" Onlys = "all" Widths = {0} Emitting = TRUE
INVARIANTS Exact Never Replayed
CHECK_DEADLOCK FALSE
