SPECIFICATION Spec
CONSTANTS Kinds = {"none","shared","text","date"} Sides = {"none","text"} Sizes = {1, 260, 5000, 66000} Depth = 2 Family = "head"
INVARIANTS Consistent Replayed
CHECK_DEADLOCK FALSE
