SPECIFICATION Spec
CONSTANTS Kinds = {"none","rk","int","frac","date"} Sides = {"text"} Sizes = {1, 300, 5000, 66000} Depth = 3 Family = "plain"
INVARIANTS Consistent Replayed
CHECK_DEADLOCK FALSE
