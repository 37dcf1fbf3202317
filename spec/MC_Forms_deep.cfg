SPECIFICATION Spec
CONSTANTS MaxFields = 5
 MaxOps = 4
INVARIANTS Tree Typed FlagsOk TextOk SelectOk SaveKeeps
PROPERTY NewKeeps TypeKept WidgetsKept
CHECK_DEADLOCK FALSE
