SPECIFICATION Spec
CONSTANTS Chars = {"a", "/", "quot", "apos", "amp", "nl"} MaxLen = 1 MaxRels = 3 Styles = {"dq", "sq"}
INVARIANTS Same Replayed
CHECK_DEADLOCK FALSE
