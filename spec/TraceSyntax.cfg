CONSTANT GrammarText <- RecText
INIT RecInit
NEXT GrammarNext
INVARIANT Judge
POSTCONDITION Summary
CHECK_DEADLOCK FALSE
CONSTANT FileImports = FALSE
