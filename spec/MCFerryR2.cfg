CONSTANTS
  Carried <- Replicated
  MaxCalls = 2
  MaxLinks = 2
  Prompt = TRUE
SPECIFICATION Spec
INVARIANTS AtRest OnceEach Sane
PROPERTIES RpcSpec 
CONSTRAINT Bound
CHECK_DEADLOCK FALSE
