CONSTANTS
  Features <- FeaturesC
  Remote = {"R"}
  Ends = {1}
  MaxLinks = 1
  MaxCalls = 1
  MaxReqs = 1
  MaxCloses = 1
  MaxDialIns = 1
  CallLocal = TRUE
  Instant = TRUE
SPECIFICATION Spec
INVARIANTS NothingWrong AtRest
CHECK_DEADLOCK FALSE
