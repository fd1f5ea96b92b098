CONSTANT Project <- RecProject
CONSTANT UniName <- RecUni
CONSTANT GrammarText <- RecText
CONSTANT FileImports = TRUE
INIT RecInit
NEXT LinkNext
INVARIANT Judge
POSTCONDITION Summary
CHECK_DEADLOCK FALSE
