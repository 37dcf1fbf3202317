SPECIFICATION Spec
CONSTANTS MaxOps = 2
 MaxText = 3
 MaxBytes = 3
 Points = {1, 2, 3}
 Pool <- Codes2
INVARIANTS Clauses RoundTrip Additive Spans ByteByByte Export CodeSpaces
CHECK_DEADLOCK FALSE
