------------------------------ MODULE TextModel ------------------------------
(* Every short text is read back from its encodings; the choice of the encoding  *)
(* never makes two texts alike.                                                  *)
EXTENDS Text
CONSTANTS Points, MaxLen
VARIABLE s
Init == s \in UNION {[1..k -> Points] : k \in 0..MaxLen}
Next == UNCHANGED s
Spec == Init /\ [][Next]_s
RoundTrip == Decode(Encode(s)) = s
Utf16Too == Decode(<<254, 255>> \o Cat([i \in 1..Len(s) |-> Utf16(s[i])])) = s
Utf8Too == Decode(<<239, 187, 191>> \o Utf8Text(s)) = s
NameToo == InDoc(s) => DecodeName(DocEnc(s)) = s
=============================================================================
