SPECIFICATION Spec
CONSTANTS Kinds = {"shared","rk","int","frac","date","numtext","datetext"} Sides = {"text"} Sizes = {1, 5000} Depth = 3 Family = "conf"
INVARIANTS Consistent Replayed
CHECK_DEADLOCK FALSE
