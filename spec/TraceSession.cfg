INIT TInit
NEXT TNext
INVARIANT Judge
POSTCONDITION Summary
CHECK_DEADLOCK FALSE
