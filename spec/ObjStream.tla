----------------------------- MODULE ObjStream -----------------------------
(* The streams of objects (ISO 32000 7.3.8) as a container of bytes: what was  *)
(* put in is what comes out, whatever filters encode it, through whichever      *)
(* door it goes; a stream with an operation in progress accepts no other.       *)
EXTENDS Filters

None == [has |-> FALSE, d |-> <<>>, f |-> <<>>, m |-> <<>>, q |-> <<>>]
\* d: the decoded data, f: its filters, m: filters of media that stay encoded, q: parameters of f
Strm(d, f) == [has |-> TRUE, d |-> d, f |-> f, m |-> <<>>, q |-> [i \in 1..Len(f) |-> NoParms]]
Closed == [k |-> "no", o |-> 0, buf |-> <<>>, f |-> <<>>, pos |-> 0]

Encoders == {"hex", "a85", "flate"}
Media == {"dct", "jpx", "ccitt", "jbig2"}
CanEncode(fs) == \A i \in 1..Len(fs) : fs[i] \in Encoders

\* s.o: streams by object; s.h: open readers and writers
Busy(s, o) == \E h \in DOMAIN s.h : s.h[h].k # "no" /\ s.h[h].o = o
Res(s, err, out) == [s |-> s, err |-> err, out |-> out]
Keep(s, err) == Res(s, err, <<>>)
SetO(s, o, r) == [s EXCEPT !.o[o] = r]
SetH(s, h, r) == [s EXCEPT !.h[h] = r]
LockErr == "PdfErrorCode::InternalLogic"
FilterErr == "PdfErrorCode::UnsupportedFilter"

\* a stream is created, empty and without filters, by the first use
Made(s, o) == IF s.o[o].has THEN s ELSE SetO(s, o, Strm(<<>>, <<>>))

DoSet(s0, o, b, f) ==
    LET s == Made(s0, o) IN
    IF Busy(s, o) THEN Keep(s, LockErr)
    ELSE IF ~CanEncode(f) THEN Keep(s, FilterErr)
    ELSE Keep(SetO(s, o, Strm(b, f)), "")

DoOpenOut(s0, h, o, f, app) ==
    LET s == Made(s0, o) IN
    IF Busy(s, o) THEN Keep(s, LockErr)
    ELSE IF app /\ s.o[o].m # <<>> THEN Keep(s, FilterErr)
    ELSE IF ~CanEncode(f) THEN Keep(s, FilterErr)
    ELSE Keep(SetH(s, h, [k |-> "out", o |-> o, buf |-> IF app THEN s.o[o].d ELSE <<>>, f |-> f, pos |-> 0]), "")
DoWrite(s, h, b) == Keep([s EXCEPT !.h[h].buf = @ \o b], "")
DoClose(s, h) ==
    LET x == s.h[h]
        t == SetH(s, h, Closed)
    IN Keep(IF x.k = "out" THEN SetO(t, x.o, Strm(x.buf, x.f)) ELSE t, "")
\* handle g takes over h; what g had in progress is finished
DoMoveHandle(s, h, g) ==
    LET t == DoClose(s, g).s IN Keep([t EXCEPT !.h[g] = s.h[h], !.h[h] = Closed], "")

\* raw: the encoded bytes, an observation
DoOpenIn(s, h, o, raw, israw) ==
    IF ~s.o[o].has THEN Keep(s, "PdfErrorCode::InvalidHandle")
    ELSE IF Busy(s, o) THEN Keep(s, LockErr)
    ELSE Keep(SetH(s, h, [k |-> "in", o |-> o, buf |-> IF israw THEN raw ELSE s.o[o].d, f |-> <<>>, pos |-> 0]), "")
Left(s, h) == Len(s.h[h].buf) - s.h[h].pos
Min(a, b) == IF a < b THEN a ELSE b
\* reads up to n bytes
DoRead(s, h, n) ==
    LET c == Min(n, Left(s, h))
        x == s.h[h]
    IN Res([s EXCEPT !.h[h].pos = @ + c], "", SubSeq(x.buf, x.pos + 1, x.pos + c))
DoReadExact(s, h, n) ==
    IF n > Left(s, h) THEN Keep([s EXCEPT !.h[h].pos = Len(s.h[h].buf)], "PdfErrorCode::UnexpectedEOF") ELSE DoRead(s, h, n)
DoReadChar(s, h) ==
    IF Left(s, h) = 0 THEN Keep(s, "PdfErrorCode::InvalidDeviceOperation") ELSE DoRead(s, h, 1)

DoCopy(s, o, raw, israw, safe) ==
    IF ~s.o[o].has THEN Keep(s, "PdfErrorCode::InvalidHandle")
    ELSE IF israw THEN Res(s, "", raw)
    ELSE IF s.o[o].m # <<>> /\ ~safe THEN Keep(s, FilterErr)
    ELSE Res(s, "", s.o[o].d)

\* streams assigned to streams
DoAssign(s0, a, b) ==
    LET s == Made(s0, a) IN
    IF ~s.o[b].has THEN Keep(s, "PdfErrorCode::InvalidHandle")
    ELSE IF a = b THEN Keep(s, "")
    ELSE IF Busy(s, a) THEN Keep(s, LockErr)
    ELSE Keep(SetO(s, a, s.o[b]), "")
\* a moved stream is left empty
DoMove(s0, a, b) ==
    LET r == DoAssign(s0, a, b) IN
    IF r.err # "" \/ a = b THEN r ELSE Keep(SetO(r.s, b, Strm(<<>>, <<>>)), "")
\* objects assigned to objects
DoObjAssign(s, a, b) == Keep(SetO(s, a, s.o[b]), "")
DoObjMove(s, a, b) == Keep(IF a = b THEN s ELSE SetO(SetO(s, a, s.o[b]), b, None), "")
DoObjClear(s, a) == Keep(SetO(s, a, None), "")

\* filters that leave the data readable are undone, filters of media stay
DoUnwrap(s, o) ==
    IF ~s.o[o].has THEN Keep(s, "PdfErrorCode::InvalidHandle")
    ELSE IF Busy(s, o) /\ s.o[o].f \o s.o[o].m # <<>> THEN Keep(s, LockErr)
    ELSE Keep(SetO(s, o, [s.o[o] EXCEPT !.f = <<>>, !.q = <<>>]), "")

\* saving may compress what has no filters
Saved(r, f2) == IF r.has /\ r.f = <<>> /\ r.m = <<>> /\ f2 = <<"flate">> THEN Strm(r.d, f2) ELSE r
DoSave(s, doc, obs) == Keep([s EXCEPT !.o = [o \in DOMAIN s.o |-> IF o \in doc /\ obs[o].has THEN Saved(s.o[o], obs[o].f) ELSE s.o[o]]], "")

\* a stream read from a file: data, filters and parameters are those of the file
RECURSIVE Undo(_, _, _, _, _)
Undo(f, q, infl, i, d) == IF i > Len(f) \/ d = Err THEN d ELSE Undo(f, q, infl, i + 1, Decode(f[i], d, q[i], infl[i]))
Foreign(raw, f, q, m, infl) == [has |-> TRUE, d |-> Undo(f, q, infl, 1, raw), f |-> f, m |-> m, q |-> q]

\* what an observation of object o must show
Shows(r, x) ==
    /\ x.has = r.has
    /\ r.has => /\ x.f = r.f \o r.m /\ x.df = r.f \o r.m
                /\ x.len = Len(x.raw)
                /\ x.data = r.d
                /\ Undo(r.f, r.q, x.infl, 1, x.raw) = r.d
=============================================================================
