SPECIFICATION Spec
CONSTANTS Alpha = {"a","b"}
 PLen = 3
 FLen = 3
INVARIANTS Order Unknown Laws
CHECK_DEADLOCK FALSE
