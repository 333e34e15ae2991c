SPECIFICATION Spec
CONSTANTS B = 128 MaxRecs = 2 Ids = {127, 412, 65408} Sizes = {0, 1, 127, 128, 16383, 16384, 2097151, 2097152} Cuts = "near" Onlys = "one" Widths = {0} Emitting = TRUE
INVARIANTS Exact Never Shortest Replayed
CHECK_DEADLOCK FALSE
