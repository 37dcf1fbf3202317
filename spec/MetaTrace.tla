------------------------------ MODULE MetaTrace ------------------------------
EXTENDS TraceBase, Integers
Fields == {"Title", "Author", "Subject", "Keywords", "Creator", "Producer", "CreationDate", "ModDate"}
M == INSTANCE Meta WITH F <- Fields
D == INSTANCE Dates
VARIABLE st
Start0 == M!Opened([x \in Fields |-> M!None], M!NoXmp, "", M!None)
TraceInit == TBInit /\ st = Start0

DateOfText(w) == IF w.st = "ok" THEN <<w.days, w.sod, w.off>> ELSE M!None
PdfDate(v) == IF v = M!None THEN v ELSE DateOfText(D!ParsePdf(v))
XmpDate(v) == IF v = M!None THEN v ELSE DateOfText(D!ParseW3c(v))
Get(r, k) == IF k \in DOMAIN r THEN r[k] ELSE M!None
InfoOf(r) == [x \in Fields |-> IF x \in M!DateFields THEN PdfDate(Get(r, x)) ELSE Get(r, x)]
\* x: what an independent reader finds in the packet
XmpOf(x) ==
    IF ~x.has THEN M!NoXmp
    ELSE [has |-> TRUE, f |-> [k \in Fields |-> IF k \in M!DateFields THEN XmpDate(x.f[k]) ELSE x.f[k]], level |-> x.level, custom |-> x.custom]
\* the revision belongs to the levels of part 4
RevOk(x) == x.has => x.rev = (IF x.level \in {"4E", "4F"} THEN "2020" ELSE "")

\* keywords: lines
RECURSIVE Lines(_, _, _)
Lines(v, p, cur) ==
    LET done == IF cur = <<>> THEN <<>> ELSE <<cur>>
    IN IF p > Len(v) THEN done
       ELSE IF v[p] \in {10, 13} THEN done \o Lines(v, p + 1, <<>>)
       ELSE Lines(v, p + 1, Append(cur, v[p]))
KeyList(v) == IF v = M!None THEN <<>> ELSE Lines(v, 1, <<>>)
RECURSIVE Joined(_)
Joined(ks) == IF Len(ks) = 1 THEN ks[1] ELSE ks[1] \o <<13, 10>> \o Joined(Tail(ks))
KeyText(ks) == IF ks = <<>> THEN M!None ELSE Joined(ks)

Shown(s) == IF s.trapped \in {"True", "False"} THEN s.trapped ELSE "Unknown"
TrappedOf(v) == IF v = "" \/ v \in {"True", "False"} THEN v ELSE "Unknown"
NotBefore(a, b) == a[1] > b[1] \/ (a[1] = b[1] /\ a[2] >= b[2])

Step(e) ==
    LET o == e.out
    IN /\ o.err = ""
       /\ CASE e.op = "start" ->
               LET i == IF e.noinfo = 1 THEN [a \in {} |-> M!None] ELSE e.info
               IN st' = M!Opened(InfoOf(i), XmpOf(e.x), IF "Trapped" \in DOMAIN i THEN i.Trapped ELSE "", Get(i, "Foo"))
            [] e.op = "set" -> st' \in M!Set(st, e.f, e.v, e.sync = 1)
            [] e.op = "setdate" -> st' \in M!Set(st, e.f, e.v, e.sync = 1)
            [] e.op = "keywords" -> st' \in M!Set(st, "Keywords", KeyText(e.list), e.sync = 1)
            [] e.op = "level" -> st' \in M!SetLevel(st, e.v, e.sync = 1)
            [] e.op = "trapped" -> st' = [st EXCEPT !.trapped = TrappedOf(e.v)]
            [] e.op = "ensure" -> st' = M!Ensured(st)
            [] e.op = "sync" -> st' = M!Sync(st, e.force = 1)
            [] e.op = "setxmp" -> st' = M!Opened(st.info, XmpOf(e.x), st.trapped, st.foo)
            [] e.op = "take" ->
               /\ o.has = st.pkt
               /\ o.has => RevOk(o.x) /\ XmpOf(o.x) = [has |-> TRUE, f |-> st.view, level |-> st.level, custom |-> st.xmp.custom]
               /\ st' = M!Forget(st)
            [] e.op = "get" ->
               /\ o.view = st.view
               /\ o.list = KeyList(st.view["Keywords"])
               /\ o.trapped = Shown(st)
               /\ o.level = st.level
               /\ UNCHANGED st
            [] e.op = "peek" ->
               /\ InfoOf(o.info) = st.info
               /\ o.info.Trapped = st.trapped
               /\ o.info.Foo = st.foo
               /\ XmpOf(o.x) = st.xmp /\ RevOk(o.x)
               /\ UNCHANGED st
            [] e.op = "save" ->
               \E s \in (IF e.nomod = 1 THEN M!SavedAsIs(st) ELSE M!Saved(st, o.mod)) :
                  /\ e.nomod = 0 => o.mod # M!None /\ NotBefore(o.mod, o.t0) /\ NotBefore(o.t1, o.mod)
                  /\ e.nomod = 1 => o.mod = st.view["ModDate"]
                  /\ st' = M!Reopened(s)
            [] OTHER -> FALSE
TraceNext == IsEv /\ Advance /\ Step(Ev)
TraceSpec == TraceInit /\ [][TraceNext]_<<tvars, st>>
=============================================================================
