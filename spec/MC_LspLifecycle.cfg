CONSTANTS MaxMsgs = 6
SPECIFICATION Spec
INVARIANTS InOrder Once AllAnswered Success
PROPERTIES Ends
CHECK_DEADLOCK FALSE
