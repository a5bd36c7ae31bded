CONSTANTS
  Callers = {1, 2}
  MaxCalls = 3
  MaxTime = 18
  LastCall = 2
  Durations = {1, 5}
  Methods = {"Work"}
  Limit0 = 3
  Limits = {2}
  Shared = FALSE
SPECIFICATION Spec
INVARIANTS Right AtRest
CHECK_DEADLOCK FALSE
