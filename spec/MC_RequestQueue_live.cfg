CONSTANTS MaxReq = 3
 Files = {"a"}
 Servers = {1,2}
SPECIFICATION Spec
INVARIANTS Sound
PROPERTIES AllRun
CHECK_DEADLOCK FALSE
