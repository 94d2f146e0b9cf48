SPECIFICATION Spec
CONSTANTS MaxCmd = 7
 LockedContinue = TRUE
INVARIANTS OneExit NoLostCommand Implements StopsRight
PROPERTIES NoStopAfterLeaving Ends
CHECK_DEADLOCK FALSE
