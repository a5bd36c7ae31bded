CONSTANTS
  Carried <- Two
  MaxCalls = 1
  MaxLinks = 2
  Prompt = FALSE
SPECIFICATION FairSpec
INVARIANTS AtRest OnceEach Sane
PROPERTIES RpcSpec Completes

CHECK_DEADLOCK FALSE
