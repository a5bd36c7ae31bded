CONSTANTS
  Carried <- Two
  MaxCalls = 2
  MaxLinks = 3
  Prompt = TRUE
SPECIFICATION Spec
INVARIANTS AtRest OnceEach Sane
PROPERTIES RpcSpec 
CONSTRAINT Bound
CHECK_DEADLOCK FALSE
