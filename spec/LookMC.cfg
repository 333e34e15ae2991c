SPECIFICATION Spec
CONSTANTS MaxRows = 3 Fmt = "xlsx"
INVARIANTS StartsAtMatch NothingLost Replayed
CHECK_DEADLOCK FALSE
