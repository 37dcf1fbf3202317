SPECIFICATION Spec
CONSTANTS MaxCalls = 6
 MaxSessions = 3
INVARIANTS Written Pending
CHECK_DEADLOCK FALSE
