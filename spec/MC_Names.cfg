SPECIFICATION Spec
CONSTANTS
  Max = 2
  NKeys = 6
  MaxOps = 6
INVARIANTS Valid Found
CHECK_DEADLOCK FALSE
