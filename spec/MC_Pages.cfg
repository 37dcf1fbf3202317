SPECIFICATION MSpec
CONSTANTS
  Depth = 4
  MaxNew = 2
  Emit = FALSE
  Wide = FALSE
VIEW View0
INVARIANTS Refines Counts Links NoDup
CHECK_DEADLOCK FALSE
