SPECIFICATION Spec
CONSTANTS MaxLen = 5
 MaxOps = 4
INVARIANTS Inside WriteLocal OnlyWrites ReadBack Refused CopyOk
CHECK_DEADLOCK FALSE
