SPECIFICATION Spec
CONSTANTS Deep = 3
 Gen = FALSE
INVARIANTS RoundTrip Prefixes After Offset OtherWidths Distinct Widened LongSome
CHECK_DEADLOCK FALSE
