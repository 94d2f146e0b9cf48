SPECIFICATION Spec
INVARIANT Inv
CONSTANT MaxOps = 3
CHECK_DEADLOCK FALSE
