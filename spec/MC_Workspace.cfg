SPECIFICATION Spec
CONSTANT Depth = 8
VIEW View2
INVARIANTS Current NothingStale HistoryFree
CHECK_DEADLOCK FALSE
