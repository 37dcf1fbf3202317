SPECIFICATION MSpec
CONSTANTS
  Depth = 18
  MaxNew = 8
  Emit = TRUE
  Wide = TRUE
INVARIANT EmitDone
CHECK_DEADLOCK FALSE
