SPECIFICATION Spec
CONSTANTS Kinds = {"null","shared","text","none"} Sides = {"text"} Sizes = {1, 300, 66000} Depth = 3 Family = "plain"
INVARIANTS Consistent Replayed
CHECK_DEADLOCK FALSE
