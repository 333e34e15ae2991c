SPECIFICATION Spec
CONSTANTS Kinds = {"none","text","shared","frac"} Sides = {"none","text"} Sizes = {1, 700, 66000} Depth = 3 Family = "plain"
INVARIANTS Consistent Replayed
CHECK_DEADLOCK FALSE
