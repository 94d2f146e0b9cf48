SPECIFICATION Spec
INVARIANT FormedInstr
INVARIANT FormedExt
INVARIANT Decided
INVARIANT Expands
CHECK_DEADLOCK FALSE
