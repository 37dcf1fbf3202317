CONSTANTS
  Points = {0, 10, 13, 22, 23, 24, 40, 92, 65, 127, 160, 173, 187, 191, 239, 254, 255, 710, 8364, 64258, 1049, 65279, 65533, 65536, 128512, 1114111}
  MaxLen = 2
SPECIFICATION Spec
INVARIANTS RoundTrip Utf16Too Utf8Too NameToo
