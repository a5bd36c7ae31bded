CONSTANTS
  Dialers = {"A", "B", "C"}
  MaxSend = 9
  MaxAll = 5
  Size = 3
  Closers = {"S", "A", "B"}
  EarlyClose = FALSE
  Depth = 14
SPECIFICATION GenSpec
CONSTRAINT Out
CHECK_DEADLOCK FALSE
