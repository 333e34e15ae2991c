SPECIFICATION Spec
CONSTANTS Kinds = {"none","text","rk"} Sides = {"none","text"} Sizes = {1, 300, 66000} Depth = 2 Family = "window"
INVARIANTS Consistent Replayed
CHECK_DEADLOCK FALSE
