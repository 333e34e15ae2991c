SPECIFICATION Spec
CONSTANTS Kinds = {"none","shared","text","rk","int","frac","date","null"} Sides = {"none","text"} Sizes = {1, 260, 5000, 66000} Depth = 2 Family = "plain"
INVARIANTS Consistent Replayed
CHECK_DEADLOCK FALSE
