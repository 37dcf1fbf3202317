CONSTANTS
  Bytes = {0, 10, 13, 32, 35, 40, 41, 48, 55, 62, 92, 110, 200}
  MaxLen = 3
  Wide = 3
SPECIFICATION Spec
INVARIANTS RoundTrip Separate
