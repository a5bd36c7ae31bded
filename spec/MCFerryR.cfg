CONSTANTS
  Carried <- Replicated
  MaxCalls = 1
  MaxLinks = 2
  Prompt = FALSE
SPECIFICATION Spec
INVARIANTS AtRest OnceEach Sane
PROPERTIES RpcSpec 
CONSTRAINT Bound
CHECK_DEADLOCK FALSE
