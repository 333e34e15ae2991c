SPECIFICATION Spec
CONSTANTS MaxLen = 2 Sites = {"shared", "inline", "str", "number", "index"}
  Pieces = {"a", "7", "ref", "hex", "ref7", "hex7", "amp", "lt", "gt", "rsq", "cdata", "cdata7", "markup", "void", "note", "tagged", "pi", "nl", "crlf", "cr", "crref"}
INVARIANTS Same Replayed
CHECK_DEADLOCK FALSE
