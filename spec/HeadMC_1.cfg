SPECIFICATION Spec
CONSTANTS Height = 1 MaxCols = 5 Words = {"a", "a.1", "Unnamed"}
INVARIANTS Unique Suffixed OwnText AsTable Replayed
PROPERTY Stable
CHECK_DEADLOCK FALSE
