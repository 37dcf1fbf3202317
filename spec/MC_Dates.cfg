SPECIFICATION Spec
CONSTANTS Years = {1, 1900, 2000, 2023, 9998}
 Sods = {0, 86399}
 Offs = {9999, 0, 840}
INVARIANTS Calendar Back
CHECK_DEADLOCK FALSE
