CONSTANTS Ids = {"1","12"}
 MaxMsgs = 5
SPECIFICATION Spec
INVARIANTS Own Complete LspOwn
CHECK_DEADLOCK FALSE
