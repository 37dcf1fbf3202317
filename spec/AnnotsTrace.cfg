SPECIFICATION TraceSpec
CONSTRAINT Progress
POSTCONDITION Report
CHECK_DEADLOCK FALSE
