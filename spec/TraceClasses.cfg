INIT Init
NEXT Next
INVARIANT Judge
POSTCONDITION Summary
CHECK_DEADLOCK FALSE
