SPECIFICATION Spec
CONSTANTS MaxLen = 6
 MaxOps = 5
INVARIANTS Inside WriteLocal OnlyWrites ReadBack Refused CopyOk
CHECK_DEADLOCK FALSE
