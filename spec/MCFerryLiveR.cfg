CONSTANTS
  Carried <- Replicated
  MaxCalls = 1
  MaxLinks = 2
  Prompt = TRUE
SPECIFICATION FairSpec
INVARIANTS AtRest OnceEach Sane
PROPERTIES RpcSpec Completes

CHECK_DEADLOCK FALSE
