SPECIFICATION Spec
CONSTANT Depth = 100
VIEW View2
INVARIANTS Current NothingStale HistoryFree
CHECK_DEADLOCK FALSE
