SPECIFICATION Spec
CONSTANTS
  Max = 2
  NKeys = 8
  MaxOps = 7
INVARIANTS Valid Found
CHECK_DEADLOCK FALSE
