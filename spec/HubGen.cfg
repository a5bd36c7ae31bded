CONSTANTS
  LowPort = 1
  HighPort = 99
  Conns = {1, 2, 3, 4}
  Hosts = {"127.0.0.1", "127.0.0.2"}
  Slots = {"A", "B"}
  Black = {2}
  MaxQueries = 6
  Depth = 14
SPECIFICATION GenSpec
CONSTRAINT Out
CHECK_DEADLOCK FALSE
