SPECIFICATION Spec
CONSTANTS B = 2 MaxRecs = 3 Ids = {0, 2, 7} Sizes = {0, 1, 2, 3, 4, 7, 8, 15} Cuts = "all" Onlys = "one" Widths = {0} Emitting = FALSE
INVARIANTS Exact Never Shortest
CHECK_DEADLOCK FALSE
