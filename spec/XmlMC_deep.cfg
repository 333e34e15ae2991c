SPECIFICATION Spec
CONSTANTS MaxLen = 4 Sites = {"shared", "inline", "str", "number"}
  Pieces = {"a", "7", "hex", "ref7", "amp", "cdata", "cdata7", "void", "note", "pi", "crlf"}
INVARIANTS Same Replayed
CHECK_DEADLOCK FALSE
