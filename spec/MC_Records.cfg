SPECIFICATION Spec
INVARIANTS Joined Parted NoLoss FileOrder InsertedFirst BackOrder FrontOrder
CHECK_DEADLOCK FALSE
CONSTANTS End = 6
 Resume = 3
 MaxText = 6
 MaxIns = 4
 FileLen = 3
