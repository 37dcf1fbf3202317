SPECIFICATION Spec
CONSTANTS MaxLen = 12
 MaxUpdates = 3
INVARIANTS Verifies Whole
PROPERTY Ends
CHECK_DEADLOCK FALSE
