SPECIFICATION Spec
CONSTANTS MaxLen = 15
 MaxUpdates = 4
INVARIANTS Verifies Whole
PROPERTY Ends
CHECK_DEADLOCK FALSE
