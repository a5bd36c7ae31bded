SPECIFICATION Spec
INVARIANTS Right Same
CONSTANTS Slots = {1, 2}
 Names = {1, 2}
 Makers = {1, 2}
 Visits = 3
 Regs = 3
 Guarded = TRUE
 Rec = FALSE
CHECK_DEADLOCK FALSE
