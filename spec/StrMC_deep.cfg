SPECIFICATION Spec
CONSTANTS Points = {0, 97, 8232, 65279, 65535, 128512} MaxLen = 3 MaxStrings = 2
INVARIANTS Same OwnBytes Replayed
CHECK_DEADLOCK FALSE
