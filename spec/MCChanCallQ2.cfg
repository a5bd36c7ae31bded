CONSTANTS
  Callers = {1, 2}
  MaxCalls = 3
  MaxTime = 18
  LastCall = 1
  Durations = {0, 5}
  Methods = {"Work", "Work2"}
  Limit0 = 3
  Limits = {4}
  Shared = TRUE
SPECIFICATION Spec
INVARIANTS Right AtRest
CHECK_DEADLOCK FALSE
