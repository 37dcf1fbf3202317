SPECIFICATION Spec
CONSTANTS MaxOps = 3
 MaxText = 3
 MaxBytes = 4
 Points = {1, 2, 3}
 Pool <- Codes2
INVARIANTS Clauses RoundTrip Additive Spans ByteByByte Export CodeSpaces
CHECK_DEADLOCK FALSE
