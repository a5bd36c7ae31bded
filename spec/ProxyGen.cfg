SPECIFICATION GenSpec
CONSTRAINT Out
CONSTANTS Types = {"bool"}
 Texts = {"0"}
 MaxList = 1
 Rec = TRUE
CHECK_DEADLOCK FALSE
