------------------------------ MODULE DevicesTrace ------------------------------
EXTENDS Devices, TraceBase
VARIABLE st
TraceInit == TBInit /\ st = Closed
Ok(o, fails, s) == IF o.err # "" THEN fails /\ st' = st ELSE ~fails /\ st' = s
Does(e) ==
    LET o == e.out IN
    CASE e.op = "open" -> IF o.err # "" THEN OpenFails(e) /\ st' = Closed ELSE ~OpenFails(e) /\ st' = Opened(e)
      [] st = Closed -> o.err # "" /\ st' = st
      [] e.op = "write" ->
            IF e.how = 2 /\ st.kind \in Fixed /\ st.wr
            \* byte by byte: as far as it goes
            THEN LET b == SubSeq(e.b, 1, Min(Len(e.b), Len(st.buf) - st.pos)) IN (o.err # "") = (b # e.b) /\ st' = Write(st, b)
            ELSE Ok(o, WriteFails(st, e.b), Write(st, e.b))
      [] e.op \in {"read", "readch"} ->
            LET n == IF e.op = "read" THEN e.n ELSE 1 IN
            IF ~st.rd THEN o.err # "" /\ st' = st
            ELSE IF n > Left(st) THEN o.err # "" /\ st' = Skip(st, n)
            ELSE o.err = "" /\ o.b = Got(st, n) /\ st' = Skip(st, n)
      [] e.op \in {"reade", "readb"} ->
            LET n == IF e.op = "reade" THEN e.n ELSE 1 IN
            IF ~st.rd THEN o.err # "" /\ st' = st
            ELSE o.err = "" /\ o.b = Got(st, n) /\ st' = Skip(st, n) /\ (e.op = "reade" => o.eof = (n >= Left(st)))
      [] e.op = "peek" -> IF ~st.rd THEN o.err # "" /\ st' = st ELSE o.err = "" /\ o.b = Got(st, 1) /\ st' = st
      [] e.op = "copy" ->
            LET n == IF e.n < 0 THEN Left(st) ELSE e.n IN
            IF ~st.rd THEN o.err # "" /\ st' = st ELSE o.err = "" /\ o.b = Got(st, n) /\ st' = Skip(st, n)
      [] e.op = "seek" -> Ok(o, SeekFails(st, e.off, e.dir), Seek(st, e.off, e.dir))
      [] e.op = "flush" -> o.err = "" /\ st' = st
      [] OTHER -> FALSE
Reading(e) == e.op \in {"read", "readch", "reade", "readb", "copy"}
Shown(s, e) ==
    LET o == e.out IN
    IF s = Closed THEN ~o.open
    ELSE /\ o.open
         /\ o.len = Len(s.buf) /\ o.pos = s.pos /\ o.canseek = (s.kind # "null")
         /\ IF s.kind \in Std
            \* a stream is at its end when reading came there
            THEN (o.end => s.pos = Len(s.buf)) /\ (Reading(e) /\ s.rd /\ s.pos = Len(s.buf) => o.end)
            ELSE o.end = (s.pos = Len(s.buf))
         /\ "guard" \in DOMAIN o => o.guard
         /\ ("content" \in DOMAIN o /\ s.kind # "null") => o.content = s.buf
TraceNext == IsEv /\ Advance /\ Does(Ev) /\ Ev.out.oerr = "" /\ Shown(st', Ev)
TraceSpec == TraceInit /\ [][TraceNext]_<<tvars, st>>
=============================================================================
