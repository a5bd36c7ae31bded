CONSTANTS
  Carried <- Three
  MaxCalls = 12
  MaxLinks = 20
  Prompt = FALSE
  Depth = 13
SPECIFICATION GenSpec
CONSTRAINT Out
CHECK_DEADLOCK FALSE
