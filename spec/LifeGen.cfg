SPECIFICATION GenSpec
CONSTRAINT Out
CONSTANTS Insts = {1, 2, 3, 4, 5, 6, 7}
 Ports = {1, 2, 3, 4}
 MaxConn = 2
 Checked = TRUE
 TrackFirst = TRUE
 Rec = TRUE
CHECK_DEADLOCK FALSE
