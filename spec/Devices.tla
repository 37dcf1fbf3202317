-------------------------------- MODULE Devices --------------------------------
(* A device is a sequence of bytes with a position.  Kinds differ in what may be *)
(* done with them: spans do not grow, "null" keeps only lengths and can not be    *)
(* positioned.                                                                   *)
EXTENDS Naturals, Integers, Sequences
Std == {"ss", "iss", "oss", "file"}
Fixed == {"span", "spanr"}
Closed == [kind |-> "", buf |-> <<>>, pos |-> 0, rd |-> FALSE, wr |-> FALSE]
Min(a, b) == IF a < b THEN a ELSE b
Slice(s, a, b) == SubSeq(s, a + 1, b)      \* bytes a .. b-1

\* ------------------------------------------------------------ opening
Needs(mode) == mode \in {"Open", "Truncate", "Append"}
OpenFails(e) ==
    /\ e.kind = "file"
    /\ \/ e.mode \in {"CreateNew", "Create", "OpenOrCreate", "Truncate"} /\ e.access = "r"
       \/ e.mode = "Append" /\ e.access # "w"
       \/ Needs(e.mode) /\ e.exists = 0
       \/ e.mode = "CreateNew" /\ e.exists = 1
Opened(e) ==
    LET buf == IF e.kind = "null" THEN <<>>
               ELSE IF e.kind = "file" /\ (e.exists = 0 \/ e.mode \in {"CreateNew", "Create", "Truncate"}) THEN <<>> ELSE e.data
        ro == e.kind \in {"stringr", "spanr", "iss"}
        wo == e.kind = "oss"
        ate == (e.kind \in {"string", "vector", "buffer"} /\ e.ate = 1) \/ (e.kind = "file" /\ e.mode = "Append")
    IN [kind |-> e.kind, buf |-> buf, pos |-> IF ate THEN Len(buf) ELSE 0,
        rd |-> ~wo /\ (e.kind \in {"null", "ss"} \/ ro \/ e.access # "w"), wr |-> ~ro /\ (e.kind \in {"null", "ss", "oss"} \/ e.access # "r")]

\* ------------------------------------------------------------ writing
WriteFails(s, b) == b # <<>> /\ (~s.wr \/ (s.kind \in Fixed /\ s.pos + Len(b) > Len(s.buf)))
Write(s, b) ==
    IF b = <<>> THEN s
    ELSE LET end == s.pos + Len(b)
         IN [s EXCEPT !.buf = Slice(s.buf, 0, s.pos) \o b \o (IF end < Len(s.buf) THEN Slice(s.buf, end, Len(s.buf)) ELSE <<>>), !.pos = end]

\* ------------------------------------------------------------ reading
Left(s) == Len(s.buf) - s.pos
Got(s, n) == Slice(s.buf, s.pos, s.pos + Min(n, Left(s)))
Skip(s, n) == [s EXCEPT !.pos = @ + Min(n, Left(s))]

\* ------------------------------------------------------------ positioning
Target(s, off, dir) == CASE dir \in {"set", "begin"} -> off [] dir = "cur" -> s.pos + off [] OTHER -> Len(s.buf) + off
SeekFails(s, off, dir) == s.kind = "null" \/ Target(s, off, dir) < 0 \/ Target(s, off, dir) > Len(s.buf)
Seek(s, off, dir) == [s EXCEPT !.pos = Target(s, off, dir)]
=============================================================================
