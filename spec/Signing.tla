-------------------------------- MODULE Signing --------------------------------
(* A signed file: a signature covers all bytes of the file as it was when it was *)
(* made, but for the place of the signature itself; whatever is added later is    *)
(* added behind.  Contents of bytes are named (digests), positions are numbers.   *)
EXTENDS Naturals, Integers, Sequences, FiniteSets
None == <<-1>>
\* attributes of a field's signature value; val: there is a value
NoSig == [val |-> FALSE, name |-> None, reason |-> None, location |-> None, date |-> -1, filter |-> "", sub |-> "", type |-> "", contents |-> "none", creator |-> None, perm |-> 0]
Empty == [len |-> 0, sha |-> "", sigs |-> {}, fields |-> [n \in {} |-> NoSig], anchor |-> -1, sigflags |-> 0, need |-> FALSE]
Put(f, n, x) == [m \in DOMAIN f \cup {n} |-> IF m = n THEN x ELSE f[m]]

\* the place of a signature with reserved bytes: both delimiters, two digits per byte
Place(reserved) == 2 * reserved + 2
\* the range says: everything but the place of the signature
RangeOk(r, pos, end, len) == r = <<0, pos, end, len - end>> /\ pos < end /\ end < len
\* the pieces the signer is given are as long as what the range says
RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE s[1] + Sum(Tail(s))
\* and their number is what the size of the signer's buffer makes it at most
Named(g) == [f |-> g.f, v |-> g.v, range |-> g.range, covered |-> g.covered, contents |-> g.contents, pos |-> g.pos, end |-> g.end]
=============================================================================
