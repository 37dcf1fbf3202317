SPECIFICATION MSpec
CONSTANTS
  Nums = {1, 2, 3}
  Gens = {0, 1}
  MaxSlots = 2
  Depth = 5
  Emit = FALSE
  SaveHows = {"buffer"}
  LoadHows = {"buffer"}
VIEW View
INVARIANTS OneObjectPerNumber LiveWereUsed RoundTrip ImageClosed CollectExact
PROPERTY NeverReassigned
CHECK_DEADLOCK FALSE
