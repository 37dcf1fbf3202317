----------------------------- MODULE TextExTrace -----------------------------
(* Pages and forms of all text operators; what is extracted of them.          *)
EXTENDS TextShow, TraceBase
VARIABLES st
TraceInit == TBInit /\ st = [p |-> Page0, f |-> <<>>]
Has(flags, b) == (flags \div b) % 2 = 1
Passes(e, g) ==
    LET t1 == IF Has(e.flags, 1) THEN Lower(Chars(g)) ELSE Chars(g)
        p == IF Has(e.flags, 1) THEN Lower(e.pattern) ELSE e.pattern
    IN /\ e.clip # <<>> => 100 * e.clip[1] <= g[1].x /\ g[1].x <= 100 * (e.clip[1] + e.clip[3]) /\ 100 * e.clip[2] <= g[1].y /\ g[1].y <= 100 * (e.clip[2] + e.clip[4])
       /\ p # <<>> => (IF Has(e.flags, 8) THEN t1 = p ELSE Holds(t1, p))
\* the page as it is seen
Turned(e, x, y) ==
    IF Has(e.flags, 64) THEN <<x, y>>
    ELSE CASE st.f.rot = 0 -> <<x, y>>
           [] st.f.rot = 90 -> <<y, 100 * st.f.w - x>>
           [] st.f.rot = 180 -> <<100 * st.f.w - x, 100 * st.f.h - y>>
           [] st.f.rot = 270 -> <<100 * st.f.h - y, x>>
Near(a, b) == a - b \in -1..1
Level(g) == \A i \in 1..Len(g) : g[i].y = g[1].y /\ g[i].ey = g[1].y /\ g[i].ex > g[i].x
Is(e, o, g, one) ==
    /\ o.text = Chars(g) /\ o.page = e.page
    /\ LET p == Turned(e, g[1].x, g[1].y) IN Near(o.x, p[1]) /\ Near(o.y, p[2])
    /\ (one /\ Level(g)) => Near(o.len, g[Len(g)].ex - g[1].x)
RECURSIVE Match(_, _, _, _, _, _)
\* the runs from i on, after those of a text which is begun
Match(e, rs, i, cur, one, os) ==
    LET End(next) ==
            LET g == Trim(cur) IN
            IF g = <<>> \/ ~Passes(e, g) THEN (IF next THEN Match(e, rs, i + 1, rs[i].g, TRUE, os) ELSE os = <<>>)
            ELSE os # <<>> /\ Is(e, os[1], g, one) /\ (IF next THEN Match(e, rs, i + 1, rs[i].g, TRUE, Tail(os)) ELSE Len(os) = 1)
    IN IF i > Len(rs) THEN End(FALSE)
       ELSE IF cur = <<>> THEN Match(e, rs, i + 1, rs[i].g, TRUE, os)
       ELSE IF rs[i].j \in {"line", "cut"} THEN End(TRUE)
       ELSE \/ End(TRUE)
            \/ Match(e, rs, i + 1, cur \o rs[i].g, FALSE, os)
            \/ ~Has(e.flags, 4) /\ Match(e, rs, i + 1, cur \o <<Blank>> \o rs[i].g, FALSE, os)
Does(e) ==
    CASE e.op = "load" -> e.out.err = "" /\ st' = [p |-> Page0, f |-> [widths |-> e.fonts, rot |-> e.rot, w |-> e.w, h |-> e.h]]
      [] e.op = "o" -> st' = [st EXCEPT !.p = Do(@, st.f.widths, e)]
      [] e.op = "extract" ->
            /\ e.out.err = "" /\ UNCHANGED st
            /\ Match(e, Runs(Lined(st.p.glyphs, <<>>), Has(e.flags, 4), <<>>), 1, <<>>, TRUE, e.out.entries)
TraceNext == IsEv /\ Advance /\ Does(Ev)
TraceSpec == TraceInit /\ [][TraceNext]_<<tvars, st>>
=============================================================================
