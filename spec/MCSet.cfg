SPECIFICATION Spec
INVARIANTS Balanced Size
CONSTANTS Items = {1, 2, 3, 4}
 Sets = {1, 2}
 MaxLen = 9
 Rec = FALSE
CHECK_DEADLOCK FALSE
