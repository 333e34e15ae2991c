SPECIFICATION Spec
CONSTANTS Kinds = {"none","shared","date"} Sides = {"none","text"} Sizes = {1, 300, 66000} Depth = 3 Family = "filter"
INVARIANTS Consistent Replayed
CHECK_DEADLOCK FALSE
