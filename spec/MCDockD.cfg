CONSTANTS
  Features <- FeaturesA
  Remote = {"R"}
  Ends = {1, 2}
  MaxLinks = 3
  MaxCalls = 1
  MaxReqs = 0
  MaxCloses = 1
  MaxDialIns = 0
  CallLocal = FALSE
  Instant = TRUE
SPECIFICATION Spec
INVARIANTS NothingWrong AtRest
CHECK_DEADLOCK FALSE
