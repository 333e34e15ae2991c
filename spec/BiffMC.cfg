SPECIFICATION Spec
CONSTANTS B = 2 MaxRecs = 2 Ids = {0, 2, 7} Sizes = {0, 1, 2, 3, 7, 8} Cuts = "all" Onlys = "one" Widths = {0} Emitting = FALSE
INVARIANTS Exact Never Shortest
PROPERTY Ends
CHECK_DEADLOCK FALSE
