CONSTANT Case <- RecCase
INIT RecInit
NEXT Next
INVARIANT Judge
POSTCONDITION Summary
CHECK_DEADLOCK FALSE
