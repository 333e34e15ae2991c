SPECIFICATION Spec
CONSTANTS Chars = {"a", "/", "quot", "apos", "amp", "lt", "gt", "tab", "nl", "cr", "sp", "astral", "nbsp"} MaxLen = 2 MaxRels = 1 Styles = {"dq", "sq", "refs"}
INVARIANTS Same Replayed
CHECK_DEADLOCK FALSE
