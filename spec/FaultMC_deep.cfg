SPECIFICATION Spec
CONSTANTS MaxRows = 3 RowKinds = {"none", "blank", "head", "nums", "first", "second", "third", "below", "far"} Ssts = {9, 0, 1, 2} Stys = {"std", "short", "none"}
INVARIANTS Refused Empty Undated Replayed
CHECK_DEADLOCK FALSE
