SPECIFICATION MSpec
CONSTANTS
  Nums = {1, 2, 3, 4, 5, 6}
  Gens = {0, 1, 2}
  MaxSlots = 5
  Depth = 22
  Emit = TRUE
  SaveHows = {"buffer", "xrs", "file"}
  LoadHows = {"buffer", "file", "same"}
INVARIANT EmitDone
CHECK_DEADLOCK FALSE
