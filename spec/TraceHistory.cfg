CONSTANT Record <- RecHistory
CONSTANT Project <- Snapshot
CONSTANT UniName <- RecUni
CONSTANT GrammarText <- SnapshotText
CONSTANT FileImports = TRUE
INIT RecInit
NEXT HistoryNext
INVARIANT Judge
POSTCONDITION Summary
CHECK_DEADLOCK FALSE
