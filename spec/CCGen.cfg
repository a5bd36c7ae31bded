CONSTANTS
  Callers = {1, 2, 3, 4}
  MaxCalls = 9
  MaxTime = 60
  LastCall = 24
  Durations = {0, 1, 2, 5, 7}
  Methods = {"Work", "Work2", "Quiet"}
  Limit0 = 4
  Limits = {3, 6}
  Shared = FALSE
SPECIFICATION GenSpec
CONSTRAINT Out
CHECK_DEADLOCK FALSE
