SPECIFICATION Spec
CONSTANTS MaxRows = 3 RowKinds = {"none", "blank", "head", "nums", "first", "third"} Ssts = {9, 1} Stys = {"std", "none"}
INVARIANTS Refused Empty Undated Replayed
CHECK_DEADLOCK FALSE
