--------------------------- MODULE ObjStreamModel ---------------------------
(* All histories of two streams and two handles over a small set of data.       *)
EXTENDS ObjStream
CONSTANT MaxLen
VARIABLES s, last
Objs == 1..2
Hs == 1..2
Data == {<<>>, <<1>>, <<2, 3>>}
Filts == {<<>>, <<"flate">>, <<"rle">>}
Init == s = [o |-> [i \in Objs |-> None], h |-> [i \in Hs |-> Closed]] /\ last = <<"", FALSE>>
R(op, o, r) == s' = r.s /\ last' = <<op, r.err # "">>
View == s
Next ==
    \/ \E o \in Objs, b \in Data, f \in Filts : R("set", o, DoSet(s, o, b, f))
    \/ \E h \in Hs, o \in Objs, f \in Filts, a \in BOOLEAN : s.h[h].k = "no" /\ R("openo", o, DoOpenOut(s, h, o, f, a))
    \/ \E h \in Hs, b \in Data : s.h[h].k = "out" /\ Len(s.h[h].buf) + Len(b) <= MaxLen /\ R("write", 0, DoWrite(s, h, b))
    \/ \E h \in Hs : s.h[h].k # "no" /\ R("close", s.h[h].o, DoClose(s, h))
    \/ \E h \in Hs : s.h[h].k # "no" /\ R("hmove", 0, DoMoveHandle(s, h, 3 - h))
    \/ \E h \in Hs, o \in Objs : s.h[h].k = "no" /\ R("openi", o, DoOpenIn(s, h, o, <<9>>, FALSE))
    \/ \E h \in Hs, n \in 0..2 : s.h[h].k = "in" /\ R("read", 0, DoRead(s, h, n))
    \/ \E o, p \in Objs : R("assign", o, DoAssign(s, o, p)) \/ (~Busy(s, p) /\ R("move", o, DoMove(s, o, p)))
    \/ \E o, p \in Objs : ~Busy(s, o) /\ ~Busy(s, p) /\ (R("oassign", o, DoObjAssign(s, o, p)) \/ R("omove", o, DoObjMove(s, o, p)))
    \/ \E o \in Objs : R("unwrap", o, DoUnwrap(s, o))
    \/ \E o \in Objs, m \in {<<>>, <<"dct">>} : ~Busy(s, o) /\ R("inject", o, Keep(SetO(s, o, Foreign(<<1>>, <<>>, <<>>, m, <<>>)), ""))
Spec == Init /\ [][Next]_<<s, last>>
\* one operation at a time on a stream
Exclusive == \A h, g \in Hs : h # g /\ s.h[h].k # "no" /\ s.h[g].k # "no" => s.h[h].o # s.h[g].o
\* what is being read or written has a stream, and reading never sees anything but its data
Reading == \A h \in Hs : s.h[h].k # "no" => s.o[s.h[h].o].has
ReadsData == \A h \in Hs : s.h[h].k = "in" => s.h[h].buf = s.o[s.h[h].o].d /\ s.h[h].pos <= Len(s.h[h].buf)
Encodable == \A o \in Objs : CanEncode(s.o[o].f) /\ Len(s.o[o].q) = Len(s.o[o].f)
\* a failing operation loses no data
Safe == [][last'[2] => \A o \in Objs : s.o[o].has => s'.o[o] = s.o[o]]_<<s, last>>
\* only closing its writer changes a stream in use
Locked == [][\A o \in Objs : Busy(s, o) /\ Busy(s', o) /\ last'[1] \notin {"hmove", "unwrap"} => s'.o[o] = s.o[o]]_<<s, last>>
Bound == \A o \in Objs : Len(s.o[o].d) <= MaxLen
=============================================================================
