SPECIFICATION Spec
CONSTANTS Gen = FALSE
INVARIANTS RoundTrip Partial InOrder AllTaken Apart
CHECK_DEADLOCK FALSE
