------------------------------ MODULE PainterTrace ------------------------------
EXTENDS Painter, TraceBase
\* m: the machine the calls are interpreted with, p: the path, cv: the marks of the canvases, c: the current one (-1: none), flags, tabs: of the painter
VARIABLES st
TraceInit == TBInit /\ st = [m |-> M0, p |-> P0, cv |-> <<>>, c |-> -1, flags |-> 0, tab |-> 4, res |-> <<>>]
\* whether the calls have drawn to the current canvas yet is of no concern: a canvas without marks is as good
Kept(s) == IF s.c < 0 THEN s.cv ELSE [s.cv EXCEPT ![s.c + 1] = @ \o s.m.marks]
\* the text state goes along to the next canvas, the rest belongs to the canvas
Fresh(s) == [M0 EXCEPT !.g = WithText(s.m.g, G0)]
Text(s, b) == LET f[i \in 0..Len(b)] == IF i = 0 THEN <<>> ELSE f[i - 1] \o (IF b[i] = 9 THEN [j \in 1..s.tab |-> 32] ELSE <<b[i]>>) IN f[Len(b)]
Tj(s, e) == [Op("Tj", <<>>) EXCEPT !.b = Text(s, e.b)]
\* the length of a text in Courier, whose characters are all as wide
Fixed(s, e) == Len(Text(s, e.b)) * (((((600 * s.m.g.size) \div 1000) + s.m.g.cs) * (s.m.g.fscale \div 100)) \div 1000)
LenOk(s, e) == (e.k \in {"aligned", "multi"} /\ s.m.g.font = s.res[2]) => Abs(Fixed(s, e) - e.out.len) <= Len(Text(s, e.b)) + 3
Shift(e) == CASE e.al = 0 -> 0 [] e.al = 1 -> (e.n[3] - e.out.len) \div 2 [] OTHER -> e.n[3] - e.out.len
ColorOps(e, up) ==
    LET c == e.color IN
    CASE c.sp = "gray" -> <<Op(IF up THEN "G" ELSE "g", c.n)>>
      [] c.sp = "rgb" -> <<Op(IF up THEN "RG" ELSE "rg", c.n)>>
      [] c.sp = "cmyk" -> <<Op(IF up THEN "K" ELSE "k", c.n)>>
      [] OTHER -> <<[Op(IF up THEN "CS" ELSE "cs", <<>>) EXCEPT !.s = c.sp], Op(IF up THEN "SCN" ELSE "scn", c.n)>>
Pattern(e, up) == <<[Op(IF up THEN "CS" ELSE "cs", <<>>) EXCEPT !.s = "Pattern"], [Op(IF up THEN "SCN" ELSE "scn", <<>>) EXCEPT !.s = e.s]>>
StyleOf(k) == CASE k = 0 -> <<>> [] k = 1 -> <<6000, 2000>> [] k = 2 -> <<2000, 2000>> [] k = 3 -> <<3000, 2000, 1000, 2000>> [] OTHER -> <<3000, 1000, 1000, 1000, 1000, 1000>>
Dash(e) == IF e.inv = 1 /\ e.style # 0 THEN <<0>> \o StyleOf(e.style) \o <<0>> ELSE StyleOf(e.style)
\* what a call asks for
Ops(s, e) ==
    LET n == e.n
        p == s.p
        rc == Reflect(p, "c")
        rq == Reflect(p, "q")
    IN CASE e.k \in {"w", "M", "J", "j", "cm", "Tz", "Tc", "Tw", "Tr", "m", "l", "c", "re", "S", "n", "h", "q", "Q", "BT", "ET", "Td"} ->
               IF e.k = "BT" THEN <<Op("BT", <<>>), Op("Td", n)>> ELSE <<Op(e.k, n)>>
      [] e.k = "ri" -> <<[Op("ri", <<>>) EXCEPT !.s = e.s]>>
      [] e.k = "fill" -> ColorOps(e, FALSE)
      [] e.k = "stroke" -> ColorOps(e, TRUE)
      [] e.k = "pattern" -> Pattern(e, FALSE)
      [] e.k = "spattern" -> Pattern(e, TRUE)
      [] e.k = "Tf" -> <<[Op("Tf", n) EXCEPT !.r = s.res[e.r + 1]]>>
      [] e.k = "gs" -> <<[Op("gs", <<>>) EXCEPT !.r = s.res[e.r + 1]]>>
      [] e.k = "style" -> <<Op("d", Dash(e) \o <<0>>)>>
      [] e.k = "dash" -> <<Op("d", n)>>
      [] e.k = "cliprect" -> <<Op("re", n), Op("W", <<>>), Op("n", <<>>)>>
      [] e.k = "line" -> <<Op("m", SubSeq(n, 1, 2)), Op("l", SubSeq(n, 3, 4)), Op("S", <<>>)>>
      [] e.k = "rounded" -> Rounded(n[1], n[2], n[3], n[4], n[5], n[6])
      [] e.k = "ellipse" -> Ellipse(n[1], n[2], n[3], n[4])
      [] e.k = "circle" -> Circle(n[1], n[2], n[3])
      [] e.k = "H" -> <<Op("l", <<n[1], p.y>>)>>
      [] e.k = "V" -> <<Op("l", <<p.x, n[1]>>)>>
      [] e.k = "smooth" -> <<Op("c", rc \o n)>>
      [] e.k = "quad" -> <<Quad(p, n[1], n[2], n[3], n[4])>>
      [] e.k = "squad" -> <<Quad(p, rq[1], rq[2], n[1], n[2])>>
      [] e.k = "f" -> <<Op(IF e.eo = 1 THEN "f*" ELSE "f", <<>>)>>
      [] e.k = "B" -> <<Op(IF e.eo = 1 THEN "B*" ELSE "B", <<>>)>>
      [] e.k = "clip" -> <<Op(IF e.eo = 1 THEN "W*" ELSE "W", <<>>), Op("n", <<>>)>>
      [] e.k = "text" -> <<Op("BT", <<>>), Op("Td", n), Tj(s, e), Op("ET", <<>>)>>
      [] e.k = "aligned" -> <<Op("BT", <<>>), Op("Td", <<n[1] + Shift(e), n[2]>>), Tj(s, e), Op("ET", <<>>)>>
      [] e.k = "multi" -> <<Op("q", <<>>)>> \o (IF e.clip = 1 THEN <<Op("re", n), Op("W", <<>>), Op("n", <<>>)>> ELSE <<>>)
                          \o <<Op("BT", <<>>), Op("Td", <<n[1] + Shift(e), Wild>>), Tj(s, e), Op("ET", <<>>), Op("Q", <<>>)>>
      [] e.k = "Tj" -> <<Tj(s, e)>>
      [] e.k = "do" -> <<Op("q", <<>>), Op("cm", <<n[3], 0, 0, n[4], n[1], n[2]>>), [Op("Do", <<>>) EXCEPT !.r = s.res[e.r + 1]], Op("Q", <<>>)>>
      [] e.k = "BMC" -> <<[Op("BMC", <<>>) EXCEPT !.s = e.s]>>
      [] e.k = "EMC" -> <<Op("EMC", <<>>)>>
      [] OTHER -> <<>>
PathOf(s, e) ==
    LET n == e.n
        p == s.p
        rq == Reflect(p, "q")
    IN CASE e.k = "m" -> Begun(n[1], n[2])
      [] e.k = "re" -> Begun(n[1], n[2])
      [] e.k = "l" -> At(p, n[1], n[2])
      [] e.k = "H" -> At(p, n[1], p.y)
      [] e.k = "V" -> At(p, p.x, n[1])
      [] e.k = "c" -> Curved(p, "c", n[3], n[4], n[5], n[6])
      [] e.k = "smooth" -> Curved(p, "c", n[1], n[2], n[3], n[4])
      [] e.k = "quad" -> Curved(p, "q", n[1], n[2], n[3], n[4])
      [] e.k = "squad" -> Curved(p, "q", rq[1], rq[2], n[1], n[2])
      [] e.k = "h" -> At(p, p.sx, p.sy)
      [] e.k = "rounded" -> Begun(n[1] + n[5], n[2])
      [] e.k = "circle" -> Begun(n[1] + n[3], n[2])
      [] e.k = "ellipse" -> Begun(n[1], n[2] + n[4] \div 2)
      [] OTHER -> p
TextSets == {"Tf", "Tz", "Tc", "Tw", "Tr"}
\* what the painter refuses: drawing nowhere, text without a font, text calls at the wrong place
Refused(s, e) ==
    \/ s.c < 0 /\ e.k \notin TextSets
    \/ e.k \in {"text", "aligned", "multi", "BT"} /\ s.m.text
    \/ e.k \in {"Tj", "ET", "Td"} /\ ~s.m.text
    \/ e.k \in {"text", "aligned", "multi", "Tj"} /\ s.m.g.font = 0
Call(s, e) ==
    IF Refused(s, e) THEN e.out.err # "" /\ st' = s
    ELSE LET m == Steps(s.m, Ops(s, e))
         IN e.out.err = "" /\ LenOk(s, e) /\ m.bad = "" /\ st' = [s EXCEPT !.m = m, !.p = PathOf(s, e), !.tab = IF e.k = "tab" THEN e.n[1] ELSE @]
ColorIs(c, o) == IF c.sp \in {"gray", "rgb", "cmyk"} THEN o.sp = c.sp /\ o.n = c.n ELSE TRUE
Shown(s, o) ==
    LET g == s.m.g IN
    /\ o.lw = g.lw /\ o.ml = g.ml /\ o.cap = g.cap /\ o.join = g.join /\ o.ri = g.ri
    /\ ColorIs(g.fill, o.fill) /\ ColorIs(g.stroke, o.stroke)
    /\ o.font = g.font /\ (g.font # 0 => o.size = g.size) /\ o.fscale = g.fscale /\ o.cs = g.cs /\ o.ws = g.ws /\ o.rm = g.rm
Does(e) ==
    LET o == e.out IN
    CASE e.op = "doc" -> o.err = "" /\ st' = [st EXCEPT !.cv = [i \in 1..4 |-> <<>>], !.res = o.res]
      \* contents that were there before
      [] e.op = "raw" -> LET m == Steps(M0, e.ops) IN o.err = "" /\ m.bad = "" /\ st' = [st EXCEPT !.cv[e.c + 1] = @ \o m.marks]
      [] e.op = "painter" -> o.err = "" /\ st' = [st EXCEPT !.m = M0, !.p = P0, !.c = -1, !.flags = e.flags, !.tab = 4]
      [] e.op = "canvas" -> o.err = "" /\ st' = IF e.c = st.c THEN st ELSE [st EXCEPT !.cv = Kept(st), !.m = Fresh(st), !.p = P0, !.c = e.c]
      [] e.op = "finish" -> o.err = "" /\ st' = [st EXCEPT !.cv = Kept(st), !.m = Fresh(st), !.p = P0, !.c = -1]
      [] e.op = "call" -> Call(st, e)
      [] e.op = "state" -> o.err = "" /\ Shown(st, o) /\ UNCHANGED st
      [] e.op = "show" -> /\ o.err = "" /\ UNCHANGED st
                          /\ \A i \in 1..4 : LET f == Steps(M0, o.cv[i].file)
                                                 g == Steps(M0, o.cv[i].copy)
                                             IN Closed(f) /\ Closed(g) /\ SameMarks(f.marks, st.cv[i]) /\ SameMarks(g.marks, st.cv[i])
      [] OTHER -> FALSE
TraceNext == IsEv /\ Advance /\ Does(Ev)
TraceSpec == TraceInit /\ [][TraceNext]_<<tvars, st>>
=============================================================================
