------------------------------ MODULE TextShow ------------------------------
(* Where the operators of a page put its characters.                         *)
(* Coordinates are hundredths; matrices are <<a, b, c, d, e, f>> of which     *)
(* only e and f are in hundredths.  A glyph has its code point, the points    *)
(* where it begins and ends, and the number of the string it was shown by.    *)
EXTENDS Integers, Sequences, FiniteSets
Unit == <<1, 0, 0, 1, 0, 0>>
Times(m, n) ==
    <<m[1] * n[1] + m[2] * n[3], m[1] * n[2] + m[2] * n[4], m[3] * n[1] + m[4] * n[3], m[3] * n[2] + m[4] * n[4],
      m[5] * n[1] + m[6] * n[3] + n[5], m[5] * n[2] + m[6] * n[4] + n[6]>>
Shift(x, y) == <<1, 0, 0, 1, x, y>>
Given(m) == <<m[1], m[2], m[3], m[4], 100 * m[5], 100 * m[6]>>
At(s) == LET r == Times(s.tm, s.g.ctm) IN <<r[5], r[6]>>
NoState == [ctm |-> Unit, font |-> "", size |-> 0, tc |-> 0, tw |-> 0, th |-> 100, tl |-> 0]
Page0 == [g |-> NoState, stack |-> <<>>, forms |-> <<>>, tm |-> Unit, tlm |-> Unit, glyphs |-> <<>>, n |-> 0]

\* one byte codes of spaces are spaced as words
Advance1(g, widths, c) ==
    (((widths[g.font][c - 31] * g.size) \div 10 + 100 * g.tc + (IF c = 32 /\ g.font # "F3" THEN 100 * g.tw ELSE 0)) * g.th) \div 100
Moved(s, x) == [s EXCEPT !.tm = Times(Shift(x, 0), @)]
RECURSIVE Glyphs(_, _, _)
Glyphs(s, widths, cs) ==
    IF cs = <<>> THEN s
    ELSE LET s2 == Moved(s, Advance1(s.g, widths, cs[1]))
             a == At(s) b == At(s2)
         IN Glyphs([s2 EXCEPT !.glyphs = Append(@, [c |-> cs[1], x |-> a[1], y |-> a[2], ex |-> b[1], ey |-> b[2], n |-> s.n])], widths, Tail(cs))
Show(s, widths, cs) == Glyphs([s EXCEPT !.n = @ + 1], widths, cs)
Line(s, x, y) == LET m == Times(Shift(100 * x, 100 * y), s.tlm) IN [s EXCEPT !.tlm = m, !.tm = m]
NextLine(s) == Line(s, 0, -s.g.tl)
RECURSIVE Parts(_, _, _)
Parts(s, widths, ps) ==
    IF ps = <<>> THEN s
    ELSE Parts(IF ps[1].s # <<>> THEN Show(s, widths, ps[1].s) ELSE Moved(s, -((((ps[1].n * s.g.size) \div 10) * s.g.th) \div 100)), widths, Tail(ps))
Pop(s, k) == [s EXCEPT !.g = s.stack[k], !.stack = SubSeq(@, 1, k - 1)]
Push(s) == [s EXCEPT !.stack = Append(@, s.g)]
Do(s, widths, e) ==
    CASE e.k = "q" -> Push(s)
      [] e.k = "Q" -> Pop(s, Len(s.stack))
      [] e.k = "cm" -> [s EXCEPT !.g.ctm = Times(Given(e.m), @)]
      [] e.k = "Do" -> LET s2 == Push(s) IN [s2 EXCEPT !.forms = Append(@, Len(s2.stack)), !.g.ctm = Times(Given(e.m), @)]
      [] e.k = "EndDo" -> LET s2 == Pop(s, s.forms[Len(s.forms)]) IN [s2 EXCEPT !.forms = SubSeq(@, 1, Len(@) - 1)]
      [] e.k = "BT" -> [s EXCEPT !.tm = Unit, !.tlm = Unit]
      [] e.k = "ET" -> s
      [] e.k = "Tf" -> [s EXCEPT !.g.font = e.font, !.g.size = e.size]
      [] e.k = "Tc" -> [s EXCEPT !.g.tc = e.x]
      [] e.k = "Tw" -> [s EXCEPT !.g.tw = e.x]
      [] e.k = "Tz" -> [s EXCEPT !.g.th = e.x]
      [] e.k = "TL" -> [s EXCEPT !.g.tl = e.x]
      [] e.k = "Tm" -> [s EXCEPT !.tm = Given(e.m), !.tlm = Given(e.m)]
      [] e.k = "Td" -> Line(s, e.x, e.y)
      [] e.k = "TD" -> Line([s EXCEPT !.g.tl = -e.y], e.x, e.y)
      [] e.k = "T*" -> NextLine(s)
      [] e.k = "Tj" -> Show(s, widths, e.s)
      [] e.k = "'" -> Show(NextLine(s), widths, e.s)
      [] e.k = "\"" -> Show(NextLine([s EXCEPT !.g.tw = e.w, !.g.tc = e.c]), widths, e.s)
      [] e.k = "TJ" -> Parts(s, widths, e.parts)

\* ------------------------------------------------------- what a reader makes of it
(* Runs of glyphs: strings which begin where the one before ends are one run.  *)
(* On another line a new text begins; at other gaps there may be a space, or    *)
(* a new text.  Words are runs of their own.                                   *)
Joint(a, b, words) ==
    IF a.n = b.n THEN (IF words /\ (a.c = 32) # (b.c = 32) THEN "cut" ELSE "none")
    ELSE IF a.line # b.y THEN "line"
    ELSE IF a.ex = b.x /\ a.ey = b.y THEN (IF words /\ (a.c = 32) # (b.c = 32) THEN "cut" ELSE "none")
    ELSE "gap"
RECURSIVE Lined(_, _)
\* with every glyph the line its string begins on
Lined(gs, done) ==
    IF gs = <<>> THEN done
    ELSE LET p == done[Len(done)]
             y == IF done # <<>> /\ p.n = gs[1].n THEN p.line ELSE gs[1].y
         IN Lined(Tail(gs), Append(done, [c |-> gs[1].c, x |-> gs[1].x, y |-> gs[1].y, ex |-> gs[1].ex, ey |-> gs[1].ey, n |-> gs[1].n, line |-> y]))
RECURSIVE Runs(_, _, _)
Runs(gs, words, done) ==
    IF gs = <<>> THEN done
    ELSE IF done = <<>> THEN Runs(Tail(gs), words, <<[j |-> "line", g |-> <<gs[1]>>]>>)
    ELSE LET r == done[Len(done)] j == Joint(r.g[Len(r.g)], gs[1], words) IN
         Runs(Tail(gs), words, IF j = "none" THEN [done EXCEPT ![Len(done)].g = Append(@, gs[1])] ELSE Append(done, [j |-> j, g |-> <<gs[1]>>]))
Blank == [c |-> 32, x |-> 0, y |-> 0, ex |-> 0, ey |-> 0, n |-> 0, line |-> 0]
RECURSIVE Trim(_)
Trim(g) == IF g = <<>> THEN <<>> ELSE IF g[1].c = 32 THEN Trim(Tail(g)) ELSE IF g[Len(g)].c = 32 THEN Trim(SubSeq(g, 1, Len(g) - 1)) ELSE g
Chars(g) == [i \in 1..Len(g) |-> g[i].c]
Lower(t) == [i \in 1..Len(t) |-> IF t[i] \in 65..90 THEN t[i] + 32 ELSE t[i]]
Holds(t, p) == \E i \in 0..(Len(t) - Len(p)) : SubSeq(t, i + 1, i + Len(p)) = p
=============================================================================
