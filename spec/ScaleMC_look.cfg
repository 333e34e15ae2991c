SPECIFICATION Spec
CONSTANTS Kinds = {"none","text"} Sides = {"none","text"} Sizes = {1, 40, 66000} Depth = 3 Family = "look"
INVARIANTS Consistent Replayed
CHECK_DEADLOCK FALSE
