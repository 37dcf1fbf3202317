SPECIFICATION Spec
CONSTANTS MaxFields = 4
 MaxOps = 3
INVARIANTS Tree Typed FlagsOk TextOk SelectOk SaveKeeps
PROPERTY NewKeeps TypeKept WidgetsKept
CHECK_DEADLOCK FALSE
