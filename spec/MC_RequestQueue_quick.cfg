CONSTANTS MaxReq = 3
 Files = {"","a","b"}
 Servers = {1,2}
SPECIFICATION Spec
INVARIANTS Sound
PROPERTIES StopsRunning
CHECK_DEADLOCK FALSE
