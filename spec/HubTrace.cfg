CONSTANTS
  LowPort = 20001
  HighPort = 49000
SPECIFICATION Spec
CONSTRAINT Progress
POSTCONDITION Report
CHECK_DEADLOCK FALSE
