SPECIFICATION Spec
INVARIANT Faithful
CONSTANTS Types = {"bool", "int8", "int64", "uint16", "string", "byte"}
 Texts = {"0", "5", "x"}
 MaxList = 2
 Rec = FALSE
CHECK_DEADLOCK FALSE
