SPECIFICATION MCSpec
INVARIANT AsMeant Scoped Write
PROPERTY Forward
POSTCONDITION Done
CHECK_DEADLOCK FALSE
