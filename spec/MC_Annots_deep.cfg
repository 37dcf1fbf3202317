SPECIFICATION Spec
CONSTANTS MaxObjs = 4
 MaxOps = 7
INVARIANTS InStep LooksOk Once
CHECK_DEADLOCK FALSE
