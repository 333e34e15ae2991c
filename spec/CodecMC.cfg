SPECIFICATION Spec
CONSTANTS
  Times = {0, 1, 999, 43200000, 43200001, 61123, 86399000, 86399999}
INVARIANTS ReadsBack Grows NoFake InRange Replayed
CHECK_DEADLOCK FALSE
