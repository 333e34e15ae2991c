SPECIFICATION Spec
CONSTANTS MaxRows = 3 Fmt = "xlsb"
INVARIANTS StartsAtMatch NothingLost Replayed
CHECK_DEADLOCK FALSE
