CONSTANT Case <- ThisCase
INIT MCInit
NEXT Next
INVARIANT TypeOK SnapshotsBalanced RulesBalanced PolarityScoped RulesNested ReportAhead Faithful DeepFaithful Unstuck Ended ReportInside Write
POSTCONDITION Done
CHECK_DEADLOCK FALSE
