SPECIFICATION Spec
CONSTANTS Gen = TRUE
INVARIANTS Out
CHECK_DEADLOCK FALSE
