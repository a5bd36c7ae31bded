SPECIFICATION Spec
CONSTRAINT Out
CONSTANTS Slots = {1, 2, 3}
 Names = {1, 2, 3, 4}
 Makers = {1, 2, 3}
 Visits = 14
 Regs = 7
 Guarded = TRUE
 Rec = TRUE
CHECK_DEADLOCK FALSE
