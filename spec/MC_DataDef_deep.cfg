SPECIFICATION Spec
INVARIANT Inv
CONSTANT MaxOps = 4
CHECK_DEADLOCK FALSE
