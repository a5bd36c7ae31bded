CONSTANTS
  Features <- FeaturesA
  Remote = {"R"}
  Ends = {1, 2}
  MaxLinks = 2
  MaxCalls = 1
  MaxReqs = 0
  MaxCloses = 1
  MaxDialIns = 0
  CallLocal = FALSE
  Instant = TRUE
SPECIFICATION FairSpec
PROPERTIES R03_Live Rests
CHECK_DEADLOCK FALSE
