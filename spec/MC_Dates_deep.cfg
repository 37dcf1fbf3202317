SPECIFICATION Spec
CONSTANTS Years = {1, 1899, 1900, 1969, 1999, 2000, 2023, 2024, 2100, 9998}
 Sods = {0, 1, 43199, 86399}
 Offs = {9999, 0, 60, 840, 1439}
INVARIANTS Calendar Back
CHECK_DEADLOCK FALSE
