SPECIFICATION Spec
CONSTANTS Height = 2 MaxCols = 4 Words = {"a", "b"}
INVARIANTS Unique Suffixed OwnText AsTable Replayed
PROPERTY Stable
CHECK_DEADLOCK FALSE
