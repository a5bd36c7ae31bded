SPECIFICATION Spec
INVARIANTS Released Works
CONSTANTS Insts = {1, 2, 3}
 Ports = {1, 2}
 MaxConn = 1
 Checked = TRUE
 TrackFirst = TRUE
 Rec = FALSE
CHECK_DEADLOCK FALSE
