SPECIFICATION Spec
CONSTANTS Deep = 2
 Gen = TRUE
INVARIANTS Out
CHECK_DEADLOCK FALSE
