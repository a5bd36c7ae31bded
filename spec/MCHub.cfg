CONSTANTS
  LowPort = 1
  HighPort = 5
  Conns = {1, 2}
  Hosts = {"h"}
  Slots = {"A"}
  Black = {2}
  MaxQueries = 2
SPECIFICATION Spec
INVARIANTS H01 H02 H03 H04_Once H05
PROPERTIES H04_Live H01_Live H01_Told
CHECK_DEADLOCK FALSE
