------------------------------ MODULE DevicesModel ------------------------------
(* Closed model of Devices: all short histories; and copying by chunks, which must *)
(* copy every byte once whatever the sizes of chunk and device are.                *)
EXTENDS Devices
CONSTANTS MaxLen, MaxOps
VARIABLES s, n, last, old, cp
vars == <<s, n, last, old, cp>>
Bytes == {1, 2}
Blocks == UNION {[1..k -> Bytes] : k \in 0..2}
Starts == UNION {[1..k -> {7}] : k \in 0..2}
Open(kind, b, acc) == Opened([kind |-> kind, data |-> b, access |-> acc, ate |-> 0, mode |-> "Open", exists |-> 1])
NoCopy == [on |-> FALSE, chunk |-> 1, want |-> 0, got |-> <<>>, from |-> 0]
Init == /\ \E k \in {"string", "span", "ss", "file", "null"}, b \in Starts, a \in {"r", "w", "rw"} : s = Open(k, b, a)
        /\ n = 0 /\ last = "open" /\ old = s /\ cp = NoCopy
Do(what, t) == s' = t /\ old' = s /\ last' = what /\ n' = n + 1
Next ==
    \/ /\ ~cp.on /\ n < MaxOps
       /\ \/ \E b \in Blocks : ~WriteFails(s, b) /\ Len(Write(s, b).buf) <= MaxLen /\ Do("write", Write(s, b)) /\ UNCHANGED cp
          \/ \E k \in 0..2 : s.rd /\ Do("read", Skip(s, k)) /\ UNCHANGED cp
          \/ \E off \in -2..2, d \in {"begin", "cur", "end"} : ~SeekFails(s, off, d) /\ Do("seek", Seek(s, off, d)) /\ UNCHANGED cp
          \/ \E c \in 1..3, w \in 1..4 : s.rd /\ Do("copy", s) /\ cp' = [on |-> TRUE, chunk |-> c, want |-> w, got |-> <<>>, from |-> s.pos]
    \* one chunk; the device may also give less than asked
    \/ /\ cp.on
       /\ LET m == Min(cp.chunk, cp.want - Len(cp.got)) IN
          \E k \in (IF Left(s) = 0 THEN {0} ELSE 1..Min(m, Left(s))) :
            /\ cp' = [cp EXCEPT !.got = @ \o Got(s, k), !.on = Len(cp.got) + k < cp.want /\ Left(s) > k]
            /\ s' = Skip(s, k) /\ UNCHANGED <<n, old, last>>
Spec == Init /\ [][Next]_vars
Inside == s.pos \in 0..Len(s.buf)
\* writing changes the bytes at the position and no others, and does not shorten
WriteLocal ==
    last = "write" => /\ Len(s.buf) >= Len(old.buf) /\ s.pos >= old.pos
                      /\ \A i \in 1..Len(old.buf) : i <= old.pos \/ i > s.pos => s.buf[i] = old.buf[i]
\* what is not writing changes no byte
OnlyWrites == last # "write" => s.buf = old.buf
\* what was written is read again
ReadBack == last = "write" => Got(Seek(s, old.pos, "begin"), s.pos - old.pos) = Slice(s.buf, old.pos, s.pos)
Refused == (~s.wr => s.buf = old.buf) /\ (s.kind \in Fixed => Len(s.buf) = Len(old.buf))
CopyOk == last = "copy" /\ ~cp.on => cp.got = Got([s EXCEPT !.pos = cp.from], cp.want) /\ s.pos = cp.from + Len(cp.got)
=============================================================================
