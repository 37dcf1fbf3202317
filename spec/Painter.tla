------------------------------ MODULE Painter ------------------------------
(* Painting on canvases.  A canvas is a sequence of marks; each mark remembers   *)
(* the state it was made with.  One machine (Step) interprets operators as a      *)
(* reader of the file does; the calls of the painter are given their meaning as   *)
(* operators which say in full what was asked for, so that what the painter wrote *)
(* (which may leave out what has no effect) must come to the same marks.          *)
EXTENDS Integers, Sequences
Wild == 0 - 999999999
Color(sp, n, s) == [sp |-> sp, n |-> n, s |-> s]
Black == Color("gray", <<0>>, "")
G0 == [lw |-> 1000, ml |-> 10000, cap |-> 0, join |-> 0, ri |-> "", dash |-> <<>>, fill |-> Black, stroke |-> Black, ctm |-> <<>>, clip |-> <<>>, gs |-> <<>>,
       font |-> 0, size |-> 0, fscale |-> 100000, cs |-> 0, ws |-> 0, rm |-> 0]
Gfx(g) == [lw |-> g.lw, ml |-> g.ml, cap |-> g.cap, join |-> g.join, ri |-> g.ri, dash |-> g.dash, fill |-> g.fill, stroke |-> g.stroke, ctm |-> g.ctm, clip |-> g.clip, gs |-> g.gs]
Txt(g) == [font |-> g.font, size |-> g.size, fscale |-> g.fscale, cs |-> g.cs, ws |-> g.ws, rm |-> g.rm]
\* the text state of one with the rest of another
WithText(g, h) == [h EXCEPT !.font = g.font, !.size = g.size, !.fscale = g.fscale, !.cs = g.cs, !.ws = g.ws, !.rm = g.rm]
M0 == [g |-> G0, st |-> <<>>, path |-> <<>>, pend |-> "", text |-> FALSE, x |-> 0, y |-> 0, mc |-> <<>>, marks |-> <<>>, bad |-> ""]
Op(o, n) == [o |-> o, n |-> n, s |-> "", b |-> <<>>, r |-> 0]
Front(s) == SubSeq(s, 1, Len(s) - 1)
Last(s) == s[Len(s)]

Seg(o, n) == [o |-> o, n |-> n]
Mark(m, k, n, b, r) == [k |-> k, path |-> m.path, n |-> n, b |-> b, r |-> r, mc |-> m.mc, gfx |-> Gfx(m.g), txt |-> IF k = "text" THEN Txt(m.g) ELSE Txt(G0)]
Bad(m, o) == [m EXCEPT !.bad = o]
Page(m) == ~m.text /\ m.path = <<>>
NoPath(m) == m.path = <<>>
Clipped(m) == IF m.pend = "" THEN m ELSE [m EXCEPT !.g.clip = Append(@, [rule |-> m.pend, path |-> m.path]), !.pend = ""]
Painted(m, o) == [Clipped(IF o = "n" THEN m ELSE [m EXCEPT !.marks = Append(@, Mark(m, o, <<>>, <<>>, 0))]) EXCEPT !.path = <<>>]
Sets == {"w", "M", "J", "j", "ri", "d", "rg", "RG", "g", "G", "k", "K", "cs", "CS", "scn", "SCN", "gs", "Tf", "Tz", "Tc", "Tw", "Tr"}
Put(m, op) ==
    LET n == op.n IN
    CASE op.o = "w" -> [m EXCEPT !.g.lw = n[1]]
      [] op.o = "M" -> [m EXCEPT !.g.ml = n[1]]
      [] op.o = "J" -> [m EXCEPT !.g.cap = n[1]]
      [] op.o = "j" -> [m EXCEPT !.g.join = n[1]]
      [] op.o = "ri" -> [m EXCEPT !.g.ri = op.s]
      [] op.o = "d" -> [m EXCEPT !.g.dash = n]
      [] op.o = "rg" -> [m EXCEPT !.g.fill = Color("rgb", n, "")]
      [] op.o = "RG" -> [m EXCEPT !.g.stroke = Color("rgb", n, "")]
      [] op.o = "g" -> [m EXCEPT !.g.fill = Color("gray", n, "")]
      [] op.o = "G" -> [m EXCEPT !.g.stroke = Color("gray", n, "")]
      [] op.o = "k" -> [m EXCEPT !.g.fill = Color("cmyk", n, "")]
      [] op.o = "K" -> [m EXCEPT !.g.stroke = Color("cmyk", n, "")]
      [] op.o = "cs" -> [m EXCEPT !.g.fill = Color(op.s, <<>>, "")]
      [] op.o = "CS" -> [m EXCEPT !.g.stroke = Color(op.s, <<>>, "")]
      [] op.o = "scn" -> [m EXCEPT !.g.fill = Color(m.g.fill.sp, n, op.s)]
      [] op.o = "SCN" -> [m EXCEPT !.g.stroke = Color(m.g.stroke.sp, n, op.s)]
      [] op.o = "gs" -> IF op.r > 0 THEN [m EXCEPT !.g.gs = Append(@, op.r)] ELSE Bad(m, op.o)
      [] op.o = "Tf" -> IF op.r > 0 THEN [m EXCEPT !.g.font = op.r, !.g.size = n[1]] ELSE Bad(m, op.o)
      [] op.o = "Tz" -> [m EXCEPT !.g.fscale = n[1]]
      [] op.o = "Tc" -> [m EXCEPT !.g.cs = n[1]]
      [] op.o = "Tw" -> [m EXCEPT !.g.ws = n[1]]
      [] OTHER -> [m EXCEPT !.g.rm = n[1]]
\* what a reader does with an operator; the names of operators that are not allowed at their places are kept in bad
Step(m, op) ==
    IF m.bad # "" THEN m
    ELSE CASE op.o \in Sets -> IF NoPath(m) THEN Put(m, op) ELSE Bad(m, op.o)
      [] op.o = "q" -> IF Page(m) THEN [m EXCEPT !.st = Append(@, m.g)] ELSE Bad(m, "q")
      [] op.o = "Q" -> IF Page(m) /\ m.st # <<>> THEN [m EXCEPT !.g = Last(m.st), !.st = Front(@)] ELSE Bad(m, "Q")
      [] op.o = "cm" -> IF Page(m) THEN [m EXCEPT !.g.ctm = Append(@, op.n)] ELSE Bad(m, "cm")
      [] op.o = "Do" -> IF Page(m) /\ op.r > 0 THEN [m EXCEPT !.marks = Append(@, Mark(m, "do", <<>>, <<>>, op.r))] ELSE Bad(m, "Do")
      [] op.o = "BT" -> IF Page(m) THEN [m EXCEPT !.text = TRUE, !.x = 0, !.y = 0] ELSE Bad(m, "BT")
      [] op.o = "ET" -> IF m.text THEN [m EXCEPT !.text = FALSE] ELSE Bad(m, "ET")
      [] op.o = "Td" -> IF m.text THEN [m EXCEPT !.x = @ + op.n[1], !.y = IF op.n[2] = Wild THEN Wild ELSE @ + op.n[2]] ELSE Bad(m, "Td")
      [] op.o = "Tj" -> IF m.text /\ m.g.font > 0 THEN [m EXCEPT !.marks = Append(@, Mark(m, "text", <<m.x, m.y>>, op.b, 0))] ELSE Bad(m, "Tj")
      [] op.o \in {"m", "re"} -> IF ~m.text THEN [m EXCEPT !.path = Append(@, Seg(op.o, op.n))] ELSE Bad(m, op.o)
      [] op.o \in {"l", "c", "h"} -> IF m.path # <<>> THEN [m EXCEPT !.path = Append(@, Seg(op.o, op.n))] ELSE Bad(m, op.o)
      [] op.o \in {"W", "W*"} -> IF m.path # <<>> THEN [m EXCEPT !.pend = op.o] ELSE Bad(m, op.o)
      [] op.o \in {"S", "f", "f*", "B", "B*", "n"} -> IF m.path # <<>> THEN Painted(m, op.o) ELSE Bad(m, op.o)
      [] op.o = "BMC" -> IF NoPath(m) THEN [m EXCEPT !.mc = Append(@, op.s)] ELSE Bad(m, "BMC")
      [] op.o = "EMC" -> IF NoPath(m) /\ m.mc # <<>> THEN [m EXCEPT !.mc = Front(@)] ELSE Bad(m, "EMC")
      [] OTHER -> Bad(m, "?" \o op.o)
Steps(m, ops) == LET f[i \in 0..Len(ops)] == IF i = 0 THEN m ELSE Step(f[i - 1], ops[i]) IN f[Len(ops)]
Closed(m) == m.bad = "" /\ m.st = <<>> /\ m.path = <<>> /\ ~m.text /\ m.mc = <<>> /\ m.pend = ""

\* ---- comparing
Abs(a) == IF a < 0 THEN 0 - a ELSE a
NearN(a, b) == a = Wild \/ b = Wild \/ Abs(a - b) <= 3
NearS(s, u) == Len(s) = Len(u) /\ \A i \in 1..Len(s) : NearN(s[i], u[i])
NearPath(p, q) == Len(p) = Len(q) /\ \A i \in 1..Len(p) : p[i].o = q[i].o /\ NearS(p[i].n, q[i].n)
NearClip(p, q) == Len(p) = Len(q) /\ \A i \in 1..Len(p) : p[i].rule = q[i].rule /\ NearPath(p[i].path, q[i].path)
Same(a, b) == /\ a.k = b.k /\ a.b = b.b /\ a.r = b.r /\ a.mc = b.mc /\ a.txt = b.txt
              /\ NearPath(a.path, b.path) /\ NearS(a.n, b.n)
              /\ [a.gfx EXCEPT !.clip = <<>>] = [b.gfx EXCEPT !.clip = <<>>] /\ NearClip(a.gfx.clip, b.gfx.clip)
SameMarks(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : Same(a[i], b[i])

\* ---- the path as the calls see it: the current point, where its subpath began, the control point smooth curves reflect
P0 == [x |-> 0, y |-> 0, sx |-> 0, sy |-> 0, rx |-> 0, ry |-> 0, kind |-> ""]
At(p, x, y) == [p EXCEPT !.x = x, !.y = y, !.kind = ""]
Begun(x, y) == [P0 EXCEPT !.x = x, !.y = y, !.sx = x, !.sy = y]
Curved(p, k, cx, cy, x, y) == [p EXCEPT !.x = x, !.y = y, !.rx = cx, !.ry = cy, !.kind = k]
Third(a) == IF a >= 0 THEN a \div 3 ELSE 0 - ((0 - a) \div 3)
Quad(p, cx, cy, x, y) == Op("c", <<Third(p.x + 2 * cx), Third(p.y + 2 * cy), Third(x + 2 * cx), Third(y + 2 * cy), x, y>>)
\* the control point of a smooth curve: the reflection of the last one of its kind, or the current point
Reflect(p, k) == IF p.kind = k THEN <<2 * p.x - p.rx, 2 * p.y - p.ry>> ELSE <<p.x, p.y>>
Circle(x, y, r) ==
    LET k == (r * 5523) \div 10000
    IN <<Op("m", <<x + r, y>>), Op("c", <<x + r, y + k, x + k, y + r, x, y + r>>), Op("c", <<x - k, y + r, x - r, y + k, x - r, y>>),
         Op("c", <<x - r, y - k, x - k, y - r, x, y - r>>), Op("c", <<x + k, y - r, x + r, y - k, x + r, y>>), Op("h", <<>>)>>
Ellipse(x, y, w, h) ==
    LET ox == (w * 27614) \div 100000
        oy == (h * 27614) \div 100000
        cx == x + w \div 2
        cy == y + h \div 2
    IN <<Op("m", <<x, cy>>), Op("c", <<x, cy - oy, cx - ox, y, cx, y>>), Op("c", <<cx + ox, y, x + w, cy - oy, x + w, cy>>),
         Op("c", <<x + w, cy + oy, cx + ox, y + h, cx, y + h>>), Op("c", <<cx - ox, y + h, x, cy + oy, x, cy>>)>>
Rounded(x, y, w, h, rx, ry) ==
    LET bx == (rx * 4477) \div 10000
        by == (ry * 4477) \div 10000
    IN <<Op("m", <<x + rx, y>>), Op("l", <<x + w - rx, y>>), Op("c", <<x + w - bx, y, x + w, y + by, x + w, y + ry>>),
         Op("l", <<x + w, y + h - ry>>), Op("c", <<x + w, y + h - by, x + w - bx, y + h, x + w - rx, y + h>>),
         Op("l", <<x + rx, y + h>>), Op("c", <<x + bx, y + h, x, y + h - by, x, y + h - ry>>),
         Op("l", <<x, y + ry>>), Op("c", <<x, y + by, x + bx, y, x + rx, y>>)>>
=============================================================================
