SPECIFICATION Spec
CONSTANTS
  MaxSheets = 3
  Kinds = {"worksheet", "dialogsheet"}
  Rids = {"rId1", "rId10", "X 7"}
  Slots = {"s1", "s2", "s3", "s4", "s5"}
  NameLists = {"marks"}
CHECK_DEADLOCK FALSE
INVARIANT Listed Apart Agree Replayed
