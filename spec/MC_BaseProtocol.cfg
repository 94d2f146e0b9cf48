CONSTANTS Bytes = {13,10,67}
 MaxLen = 3
 MaxMsgs = 2
SPECIFICATION Spec
INVARIANTS Prefix NoBad Whole Complete
PROPERTIES Ends
CHECK_DEADLOCK FALSE
