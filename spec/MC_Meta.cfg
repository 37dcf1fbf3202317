SPECIFICATION Spec
CONSTANTS
  F = {"Title", "ModDate"}
  NV = 2
  Levels = {"1B"}
  MaxSteps = 3
INVARIANTS SeesWhatWasSet LevelKept CustomKept DiskShown Idempotent SyncAgrees
CHECK_DEADLOCK FALSE
