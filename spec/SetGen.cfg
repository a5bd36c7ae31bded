SPECIFICATION Spec
INVARIANT Out
CONSTANTS Items = {1, 2}
 Sets = {1}
 MaxLen = 5
 Rec = TRUE
CHECK_DEADLOCK FALSE
