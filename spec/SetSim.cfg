SPECIFICATION Spec
INVARIANT Out
CONSTANTS Items = {1, 2, 3, 4, 5, 6}
 Sets = {1, 2}
 MaxLen = 60
 Rec = TRUE
CHECK_DEADLOCK FALSE
