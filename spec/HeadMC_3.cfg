SPECIFICATION Spec
CONSTANTS Height = 3 MaxCols = 3 Words = {"a", "b"}
INVARIANTS Unique Suffixed OwnText AsTable Replayed
PROPERTY Stable
CHECK_DEADLOCK FALSE
