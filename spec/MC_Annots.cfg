SPECIFICATION Spec
CONSTANTS MaxObjs = 4
 MaxOps = 5
INVARIANTS InStep LooksOk Once
CHECK_DEADLOCK FALSE
