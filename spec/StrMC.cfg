SPECIFICATION Spec
CONSTANTS Points = {0, 97, 65279, 65535, 128512} MaxLen = 2 MaxStrings = 2
INVARIANTS Same OwnBytes Replayed
CHECK_DEADLOCK FALSE
