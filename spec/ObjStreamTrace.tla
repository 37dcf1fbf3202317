--------------------------- MODULE ObjStreamTrace ---------------------------
EXTENDS ObjStream, TraceBase
VARIABLE s
Objs == 1..4
InDoc == 1..3
Init0 == [o |-> [i \in Objs |-> None], h |-> [i \in 1..2 |-> Closed]]
\* e.raw: encoded data before the operation where it reads them
Do(e) ==
    CASE e.op = "set" -> DoSet(s, e.o, e.b, e.f)
      [] e.op = "openo" -> DoOpenOut(s, e.h, e.o, e.f, e.app = 1)
      [] e.op = "write" -> DoWrite(s, e.h, e.b)
      [] e.op = "close" -> DoClose(s, e.h)
      [] e.op = "hmove" -> DoMoveHandle(s, e.h, e.g)
      [] e.op = "openi" -> DoOpenIn(s, e.h, e.o, e.raw, e.israw = 1)
      [] e.op = "read" -> CASE e.k = "exact" -> DoReadExact(s, e.h, e.n) [] e.k = "char" -> DoReadChar(s, e.h) [] OTHER -> DoRead(s, e.h, e.n)
      [] e.op = "copy" -> DoCopy(s, e.o, e.raw, e.israw = 1, e.safe = 1)
      [] e.op = "assign" -> DoAssign(s, e.o, e.p)
      [] e.op = "move" -> DoMove(s, e.o, e.p)
      [] e.op = "oassign" -> DoObjAssign(s, e.o, e.p)
      [] e.op = "omove" -> DoObjMove(s, e.o, e.p)
      [] e.op = "oclear" -> DoObjClear(s, e.o)
      [] e.op = "unwrap" -> DoUnwrap(s, e.o)
      [] e.op \in {"save", "update"} -> DoSave(s, InDoc, e.st)
      [] e.op = "inject" -> DoSave(Keep(SetO(s, e.o, Foreign(e.b, e.f, e.q, e.m, e.infl)), "").s, InDoc, e.st)
EofOk(e, r) ==
    e.op = "read" /\ e.k = "buf" /\ e.err = "" =>
       /\ Len(e.out) < e.n => e.eof = 1
       /\ e.eof = 1 => Left(r.s, e.h) = 0
Ok(e, r) ==
    /\ e.err = r.err
    /\ e.err = "" /\ e.op \in {"read", "copy"} => e.out = r.out
    /\ EofOk(e, r)
    /\ e.op = "inject" => r.s.o[e.o].d # Err
    /\ "st" \in DOMAIN e => \A o \in Objs : (~Busy(r.s, o) \/ e.st[o].open = 0) => Shows(r.s.o[o], e.st[o])
TInit == TBInit /\ s = Init0
Ops == {"set", "openo", "write", "close", "hmove", "openi", "read", "copy", "assign", "move", "oassign", "omove", "oclear", "unwrap", "save", "update", "inject"}
TNext == IsEv /\ Advance /\ Ev.op \in Ops /\ LET e == Ev
                                r == Do(e)
                            IN Ok(e, r) /\ s' = r.s
TraceSpec == TInit /\ [][TNext]_<<tvars, s>>
=============================================================================
