CONSTANTS
  Dialers = {"A"}
  MaxSend = 3
  MaxAll = 3
  Size = 2
  Closers = {"S", "A"}
  EarlyClose = FALSE
SPECIFICATION Spec
INVARIANTS Right AtRest
CHECK_DEADLOCK FALSE
