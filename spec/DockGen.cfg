CONSTANTS
  Features <- FeaturesC
  Remote = {"R", "S"}
  Ends = {1, 2}
  MaxLinks = 4
  MaxCalls = 6
  MaxReqs = 4
  MaxCloses = 2
  MaxDialIns = 2
  CallLocal = TRUE
  Instant = FALSE
  Depth = 18
SPECIFICATION GenSpec
CONSTRAINT Out
CHECK_DEADLOCK FALSE
