SPECIFICATION TraceSpec
CONSTRAINT Progress
POSTCONDITION Report
INVARIANTS OneObjectPerNumber LiveWereUsed
CHECK_DEADLOCK FALSE
