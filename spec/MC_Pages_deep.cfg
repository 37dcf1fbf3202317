SPECIFICATION MSpec
CONSTANTS
  Depth = 5
  MaxNew = 3
  Emit = FALSE
  Wide = FALSE
VIEW View0
INVARIANTS Refines Counts Links NoDup
CHECK_DEADLOCK FALSE
