SPECIFICATION Spec
CONSTANTS MaxSize = 3
 MaxOps = 3
INVARIANTS Written SaveKeeps LookupsOk CopiesEqual
PROPERTY Apart
CHECK_DEADLOCK FALSE
