CONSTANT TextOf <- RecText
INIT RecInit
NEXT CursorNext
INVARIANT Judge
POSTCONDITION Summary
CHECK_DEADLOCK FALSE
