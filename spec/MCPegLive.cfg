CONSTANT Case <- ThisCase
SPECIFICATION MCSpec
PROPERTY ReportMonotone LookaheadNeutral Terminates
CHECK_DEADLOCK FALSE
