SPECIFICATION Spec
CONSTANTS Points = {97, 65279, 65536, 1114111} MaxLen = 1 MaxStrings = 4
INVARIANTS Same OwnBytes Replayed
CHECK_DEADLOCK FALSE
