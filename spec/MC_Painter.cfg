SPECIFICATION Spec
CONSTANTS MaxCalls = 5
 MaxSessions = 2
INVARIANTS Written Pending
CHECK_DEADLOCK FALSE
