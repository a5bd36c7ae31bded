CONSTANTS
  Dialers = {"A", "B"}
  MaxSend = 2
  MaxAll = 2
  Size = 2
  Closers = {"S", "A"}
  EarlyClose = FALSE
SPECIFICATION Spec
INVARIANTS Right AtRest
CHECK_DEADLOCK FALSE
