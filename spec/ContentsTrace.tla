---------------------------- MODULE ContentsTrace ----------------------------
EXTENDS Contents, TraceBase
VARIABLES rd, w, cf, cd
vars == <<t, l, rd, w, cf, cd>>

SetRes(r) == {<<r[i][1], r[i][2]>> : i \in 1..Len(r)}
World(e) == [res |-> SetRes(e.res),
             objs |-> [i \in 1..Len(e.objs) |-> [k |-> e.objs[i].k, b |-> e.objs[i].b, res |-> SetRes(e.objs[i].res)]]]
NoWorld == [res |-> {}, objs |-> <<>>]
Has(s, c) == \E i \in 1..Len(s) : s[i] = c
TraceInit == TBInit /\ rd = Reader(<<>>, 0) /\ w = NoWorld /\ cf = [throw |-> FALSE, follow |-> TRUE, handler |-> FALSE] /\ cd = <<>>

ToSet(s) == {s[i] : i \in 1..Len(s)}
Hand(h) == IF h = <<>> THEN <<>> ELSE <<[d |-> Canon([t |-> "dict", d |-> h.d.d]).d, b |-> h.b]>>
Same(o, x) ==
    /\ o.type = x.type
    /\ CanonSeq(o.stack) = x.stack
    /\ ToSet(o.warn) = x.warn
    /\ CASE x.type = "op" -> o.kw = x.kw /\ o.agrees
         [] x.type = "unk" -> o.kw = x.kw
         [] x.type = "imgdict" -> Canon(o.d).d = x.d
         [] x.type = "imgdata" -> o.b = x.b
         [] x.type = "do" -> o.name = x.name /\ o.k = x.k /\ o.xb = x.xb
         [] x.type = "end" -> TRUE

Open(e) ==
    /\ e.op = "open" /\ e.err = ""
    /\ w' = World(e)
    /\ rd' = Reader(Join(e.parts), IF e.mode = "device" THEN -1 ELSE 0)
    /\ cf' = [throw |-> e.throw, follow |-> e.follow, handler |-> e.handler]
    /\ UNCHANGED cd
Next1(e) ==
    /\ e.op = "next"
    /\ UNCHANGED <<w, cf, cd>>
    /\ LET s == Read(rd, w, cf.follow, cf.handler) IN
       IF rd.bad \/ s.rd.bad THEN rd' = Bad(rd)
       ELSE IF s.o.type = "eof" THEN rd' = s.rd /\ e.err = "" /\ ~e.out.more /\ Hand(e.out.handled) = s.h
       ELSE IF cf.throw /\ s.o.warn # {} THEN rd' = Bad(rd) /\ e.err = "PdfErrorCode::InvalidContentStream"
       ELSE rd' = s.rd /\ e.err = "" /\ e.out.more /\ Hand(e.out.handled) = s.h /\ Same(e.out, s.o)
COpen(e) == e.op = "copen" /\ e.err = "" /\ cd' = Join(e.parts) /\ UNCHANGED <<rd, w, cf>>
CRead(e) ==
    /\ e.op = "cread" /\ e.err = "" /\ UNCHANGED <<rd, w, cf>>
    /\ LET n == IF e.m = "buf" THEN e.n ELSE 1
           k == IF n > Len(cd) THEN Len(cd) ELSE n
       IN /\ e.out.b = SubSeq(cd, 1, k)
          /\ (k < n) => e.out.eof
          /\ e.out.eof => k = Len(cd)
          /\ cd' = IF e.m = "peek" THEN cd ELSE SubSeq(cd, k + 1, Len(cd))
TraceNext == IsEv /\ Advance /\ (Open(Ev) \/ Next1(Ev) \/ COpen(Ev) \/ CRead(Ev))
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
