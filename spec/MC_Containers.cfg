SPECIFICATION Spec
CONSTANTS MaxSize = 4
 MaxOps = 2
INVARIANTS Written SaveKeeps LookupsOk CopiesEqual
PROPERTY Apart
CHECK_DEADLOCK FALSE
